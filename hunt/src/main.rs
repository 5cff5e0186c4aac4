//! Search for a failing input of one property against the real crate.
#[macro_use] mod rt;
// all parts, or (--cfg only) just the chosen ones, when another part no longer fits the crate's interface
#[cfg(any(not(only), m_particles))] mod particles;
#[cfg(any(not(only), m_particles, m_pointers))] mod adapt;
#[cfg(not(only))] mod zoo;
#[cfg(any(not(only), m_storage))] mod storage;
#[cfg(any(not(only), m_pointers))] mod pointers;
#[cfg(any(not(only), m_algos))] mod algos;

use std::sync::atomic::Ordering;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    unsafe { rt::THOROUGH = a[2] == "thorough" || a[2] == "deep"; rt::DEEP = a[2] == "deep"; rt::SEED = a[3].parse().unwrap_or(1); rt::RFILE = a.get(4).cloned(); }
    if std::env::var("HUNT_TRACE").is_ok() { rt::TRACE.store(true, Ordering::Relaxed) }
    std::panic::set_hook(Box::new(|i| {
        if rt::EXPECT.load(Ordering::Relaxed) { if let Some(s) = i.payload().downcast_ref::<&str>() { if *s == "comparison panics" { return } } }
        // in a search for out-of-bounds particles alone, a panic is for another property to judge
        if rt::bounds() { return }
        rt::fail(format!("panic: {}", i))
    }));
    let limit = std::env::var("HUNT_HANG").ok().and_then(|x| x.parse().ok()).unwrap_or(40u64);
    std::thread::spawn(move || { let mut last = (u64::MAX, 0u64); loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let t = rt::TICK.load(Ordering::Relaxed);
        if t == last.0 { last.1 += 1; if last.1 >= limit { if rt::bounds() { println!("STATS {}", rt::stats()); std::process::exit(0) } rt::fail("does not end".into()) } } else { last = (t, 0) }
    } });
    // only the property searched is compiled, or (--cfg p_all) all of them
    let body = move || match &prop[..] {
        #[cfg(all(any(p_all, p_C01), any(not(only), m_particles)))] "C01" => { particles::c01(); #[cfg(not(only))] zoo::c01(); }
        #[cfg(any(p_all, p_C02))] "C02" => {
            rt::BOUNDS.store(true, Ordering::Relaxed);
            #[cfg(any(not(only), m_particles))] for f in [particles::c01 as fn(), particles::c03, particles::c04, particles::c05, particles::c07, particles::c08] { let _ = std::panic::catch_unwind(f); }
            #[cfg(any(not(only), m_storage))] for f in [storage::c09 as fn(), storage::c10, storage::c11] { let _ = std::panic::catch_unwind(f); }
            #[cfg(any(not(only), m_pointers))] { let _ = std::panic::catch_unwind(pointers::c19); }
            #[cfg(not(only))] for f in [zoo::c03 as fn(), zoo::scans] { let _ = std::panic::catch_unwind(f); }
        }
        #[cfg(all(any(p_all, p_C03), any(not(only), m_particles)))] "C03" => { particles::c03(); #[cfg(not(only))] zoo::c03(); }
        #[cfg(all(any(p_all, p_C04), any(not(only), m_particles)))] "C04" => { particles::c04(); }
        #[cfg(all(any(p_all, p_C05), any(not(only), m_particles)))] "C05" => { particles::c05(); #[cfg(not(only))] zoo::c05(); }
        #[cfg(all(any(p_all, p_C07), any(not(only), m_particles)))] "C07" => { particles::c07(); #[cfg(any(not(only), m_pointers))] pointers::iterate(); }
        #[cfg(all(any(p_all, p_C08), any(not(only), m_particles)))] "C08" => { particles::c08(); }
        #[cfg(all(any(p_all, p_C18), any(not(only), m_particles)))] "C18" => { particles::c18(); #[cfg(any(not(only), m_pointers))] pointers::compare(); }
        #[cfg(all(any(p_all, p_C06), any(not(only), m_storage)))] "C06" => { storage::c06(); #[cfg(not(only))] zoo::c06(); }
        #[cfg(all(any(p_all, p_C09), any(not(only), m_storage)))] "C09" => { storage::c09(); #[cfg(not(only))] zoo::c09(); }
        #[cfg(all(any(p_all, p_C10), any(not(only), m_storage)))] "C10" => { storage::c10(); #[cfg(not(only))] zoo::c10(); }
        #[cfg(all(any(p_all, p_C11), any(not(only), m_storage)))] "C11" => { storage::c11(); #[cfg(not(only))] zoo::scans(); }
        #[cfg(all(any(p_all, p_C12), any(not(only), m_storage)))] "C12" => { storage::c12(); #[cfg(not(only))] zoo::moves(); }
        #[cfg(all(any(p_all, p_C13), any(not(only), m_algos)))] "C13" => { algos::c13(); #[cfg(not(only))] zoo::sorts(1); }
        #[cfg(all(any(p_all, p_C14), any(not(only), m_algos)))] "C14" => { algos::c14(); #[cfg(not(only))] zoo::sorts(2); }
        #[cfg(all(any(p_all, p_C15), any(not(only), m_algos)))] "C15" => { algos::c15(); #[cfg(not(only))] zoo::heaps(); }
        #[cfg(all(any(p_all, p_C16), any(not(only), m_algos)))] "C16" => { algos::c16(); #[cfg(not(only))] zoo::searches(); }
        #[cfg(all(any(p_all, p_C17), any(not(only), m_algos)))] "C17" => { algos::c17(); #[cfg(not(only))] zoo::merges(); }
        #[cfg(all(any(p_all, p_C21), any(not(only), m_algos)))] "C21" => { algos::c21(); }
        #[cfg(all(any(p_all, p_C19), any(not(only), m_pointers)))] "C19" => { pointers::c19(); #[cfg(not(only))] zoo::c19(); }
        #[cfg(all(any(p_all, p_C20), any(not(only), m_pointers)))] "C20" => { pointers::c20(); #[cfg(not(only))] zoo::copies(); }
        // the inputs of KNOWN_FINDINGS.txt: these runs are expected to end badly
        "known-C16" => { indexing::algorithms::lower_bound_raw_ptr(&[(); 3][..], &()); }
        #[cfg(any(not(only), m_algos))] p @ ("known-C13-range" | "known-C13-prange" | "known-C13-bounds") => {
            let mut v = vec![0u8; 20_000];
            let f = match p { "known-C13-range" => indexing::algorithms::quicksort_range as fn(&mut [u8]), "known-C13-prange" => indexing::algorithms::quicksort_prange, _ => indexing::algorithms::quicksort_bounds };
            std::thread::Builder::new().stack_size(1 << 16).spawn(move || f(&mut v)).unwrap().join().ok();
        }
        _ => { println!("unknown property"); std::process::exit(2) }
    };
    // a thread of its own, so that the size of the stack is known
    std::thread::Builder::new().stack_size(64 << 20).spawn(body).unwrap().join().ok();
    println!("STATS {}", rt::stats());
}
