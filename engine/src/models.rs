//! Which functions are replaced by models (their bodies are removed before optimisation).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Model {
    Panic, Abort,
    Alloc, AllocZeroed, Realloc, Dealloc,
    Malloc, Calloc, PosixMemalign, CRealloc, Free,
    Memcmp, Bcmp, Strlen, CMemchr,
    HasherWrite, HasherWriteStr, HasherFinish, HashKeys,
    MemchrFind, MemrchrFind, Memchr2Find, Memchr3Find,
    // (needle found at) models; the number is the argument index of the haystack pointer
    SearcherKind, SearcherRev, RabinKarp,
    SliceMemchr, SliceMemrchr,
    RetZero, RetVoid, StdDetectInit,
    MvBytes, MvChoice, MvAssume, MvCheck, MvFail, MvReach, MvHashMode, MvReport, MvConc, MvConcBytes,
}
use Model::*;

pub fn model_for(name: &str, dem: &str) -> Option<Model> {
    Some(match name {
        "malloc" => Malloc, "calloc" => Calloc, "realloc" => CRealloc, "free" => Free, "posix_memalign" => PosixMemalign,
        "memcmp" => Memcmp, "bcmp" => Bcmp, "strlen" => Strlen, "memchr" => CMemchr,
        "abort" => Abort,
        "getenv" | "secure_getenv" | "__cxa_thread_atexit_impl" => RetZero,
        "mvsym_bytes" => MvBytes, "mvsym_choice" => MvChoice, "mvsym_assume" => MvAssume, "mvsym_check" => MvCheck,
        "mvsym_fail" => MvFail, "mvsym_reach" => MvReach, "mvsym_hash_mode" => MvHashMode, "mvsym_report" => MvReport,
        "mvsym_concretize" => MvConc, "mvsym_conc_bytes" => MvConcBytes,
        _ => {
            let d = dem;
            if !name.starts_with("_R") && !name.starts_with("_ZN") { return None; }
            if d.starts_with("core::panicking::") && !d.contains("AssertKind") && !d.ends_with("const_panic") { return Some(Panic); }
            if d.starts_with("core::option::unwrap_failed") || d.starts_with("core::option::expect_failed")
                || d.starts_with("core::result::unwrap_failed") || d.starts_with("core::slice::index::slice_index_fail")
                || d.starts_with("core::slice::index::slice_start_index_len_fail") || d.starts_with("core::slice::index::slice_end_index_len_fail")
                || d.starts_with("core::slice::index::slice_index_order_fail")
                || d.starts_with("core::str::slice_error_fail") || d.starts_with("core::cell::panic_already")
                || d.starts_with("alloc::raw_vec::capacity_overflow") || d.starts_with("alloc::raw_vec::handle_error")
                || d.starts_with("alloc::alloc::handle_alloc_error") || d.starts_with("std::panicking::")
                || d.starts_with("core::slice::copy_from_slice_impl::len_mismatch_fail")
                || d.starts_with("<std::thread::local::AccessError") || d.contains("panic_access_error")
            { return Some(Panic); }
            if d.contains("__rust_alloc_zeroed") || d.contains("__rdl_alloc_zeroed") { return Some(AllocZeroed); }
            if d.contains("__rust_alloc_error_handler") || d.contains("__rdl_alloc_error_handler") || d.contains("__rg_oom") || d.contains("__rust_foreign_exception") { return Some(Panic); }
            if d.contains("__rust_alloc") || d.contains("__rdl_alloc") { return Some(Alloc); }
            if d.contains("__rust_dealloc") || d.contains("__rdl_dealloc") { return Some(Dealloc); }
            if d.contains("__rust_realloc") || d.contains("__rdl_realloc") { return Some(Realloc); }
            if d.contains("__rust_no_alloc_shim") { return Some(RetVoid); }
            if d.starts_with("<std::hash::random::DefaultHasher as core::hash::Hasher>") || d.starts_with("<core::hash::sip::Hasher<") {
                if d.ends_with("::write") { return Some(HasherWrite); }
                if d.ends_with("::write_str") { return Some(HasherWriteStr); }
                if d.ends_with("::finish") { return Some(HasherFinish); }
            }
            if d.ends_with("::hashmap_random_keys") { return Some(HashKeys); }
            // the text of a JSON type error (it may hold a formatted number): empty
            if d.starts_with("<serde_json::error::JsonUnexpected as core::fmt::Display>::fmt") { return Some(RetZero); }
            if d.starts_with("std_detect::detect::cache::detect_and_initialize") { return Some(StdDetectInit); }
            if d.starts_with("memchr::memmem::searcher::searcher_kind_") { return Some(SearcherKind); }
            if d == "<memchr::memmem::searcher::SearcherRev>::rfind" || d.starts_with("<memchr::memmem::searcher::SearcherRev>::rfind") { return Some(SearcherRev); }
            if d.starts_with("<memchr::arch::all::rabinkarp::Finder>::find") && !d.contains("raw") { return Some(RabinKarp); }
            if d == "memchr::memchr::memchr" { return Some(MemchrFind); }
            if d == "memchr::memchr::memrchr" { return Some(MemrchrFind); }
            if d == "memchr::memchr::memchr2" { return Some(Memchr2Find); }
            if d == "memchr::memchr::memchr3" { return Some(Memchr3Find); }
            if d.starts_with("core::slice::memchr::memchr_aligned") || d == "core::slice::memchr::memchr" { return Some(SliceMemchr); }
            if d == "core::slice::memchr::memrchr" || d.starts_with("core::slice::memchr::memrchr_aligned") { return Some(SliceMemrchr); }
            return None;
        }
    })
}
