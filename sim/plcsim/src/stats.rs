//! Counters of what a run really did (not what was configured).
use crate::rt::{page, NSTATE};
use std::sync::atomic::Ordering::Relaxed;

macro_rules! ctrs {($($n:ident)*) => {
    #[allow(non_camel_case_types, dead_code)]
    #[derive(Clone, Copy)]
    pub enum C { $($n),* }
    pub const NAMES: &[&str] = &[$(stringify!($n)),*];
}}
ctrs! {
    calls evaluations clock_reads library_events
    scan_stall zero_time_scan input_edge pt_change cold_restart warm_restart relocated_by_restart torn_image torn_mid_call crash_after_call
    wall_step wall_step_inside_call mono_backward mono_forward_jump time_passed_inside_call heap_denied_allocations calls_under_full_heap
    retained_value_restored
    at_pt_minus_1 at_pt at_pt_plus_1 saturated_high saturated_low simultaneous_edges settled_after_tear
    preemption forced_yield frozen_mid_call refused_call garbage_destination interrupted_destination reused_destination
    time_calls day_wrap_near dst_near shared_source address_reuse longest_call_events sleeps interrupt_on_same_stack instance_copied repeated_calls output_calls deepest_stack_bytes
    heap_failed_in_call ended_by_heap_failure survived_heap_failure memory_kept largest_kept_bytes varied_calls call_on_new_thread
    file_operations file_failure file_interrupted file_short_read file_early_end file_slow file_changed_inside_call
    zone_changed zone_damaged zone_change_followed zone_fallback
    aimed_runs address_left_behind copied_to_another_process
    threads_sealed calls_sealed calls_cut_off
}
pub fn inc(c: C) {
    page().ctr[c as usize].fetch_add(1, Relaxed);
}
pub fn add(c: C, n: u64) {
    page().ctr[c as usize].fetch_add(n, Relaxed);
}
pub fn max(c: C, n: u64) {
    page().ctr[c as usize].fetch_max(n, Relaxed);
}
pub fn is_max(n: &str) -> bool {
    matches!(n, "longest_call_events" | "deepest_stack_bytes" | "largest_kept_bytes")
}
/// A situation reached, by its hash; counted distinct over the whole check.
pub fn state(h: u64) {
    let p = page();
    let n = p.nstate.load(Relaxed) as usize;
    if n < NSTATE {
        p.state[n].store(h, Relaxed);
        p.nstate.store(n as u64 + 1, Relaxed);
    }
}
