//! One entry per property.
use crate::authn;
use crate::confcheck;
use crate::frame;
use crate::hookmon;
use crate::hist::{self, HProf};
use crate::hostile;
use crate::life;
use crate::limits;
use crate::real;
use crate::model::{self, Prof};
use crate::timers;
use crate::storm;
use monlib::Run;

const RULE: &str = "distinct operation histories in which at least one message was delivered and judged";

fn model_run(id: &str, prof: Prof, cases: (u64, u64)) {
    let mut run = Run::new(id, RULE, (40, 600));
    run.assume("model histories: operations are separated by quiescence");
    model::drive(&mut run, prof, cases, &[]);
    if stormy(id) {
        parallel(&mut run);
    }
    run.finish()
}

fn hist_run(id: &str, prof: HProf, cases: (u64, u64)) {
    let mut run = Run::new(id, "distinct concurrent histories in which at least one delivery was judged", (45, 600));
    run.assume("recorded histories: interleavings are those of one executor thread polling tasks in an order perturbed by random pauses, stalls and partial transfers");
    hist::drive(&mut run, prof, cases);
    if stormy(id) {
        parallel(&mut run);
    }
    run.finish()
}

fn life_run(id: &str) {
    let mut run = Run::new(id, "distinct histories of racing connects with at least one point of rest judged", (40, 600));
    run.assume("racing connects: interleavings are those of one executor thread polling tasks in an order perturbed by random pauses and partial reads");
    life::drive(&mut run, (8000, 400000));
    parallel(&mut run);
    run.finish()
}

fn timers_run(id: &str, cases: (u64, u64)) {
    let rule = match id {
        "C11" => "distinct histories of connections that ended, with the session and the will watched until after their deadlines",
        "C17" => "distinct histories of lively and silent clients under virtual time",
        _ => "distinct sets of complete, slow and unfinished handshakes followed for 70 virtual seconds",
    };
    let mut run = Run::new(id, rule, (40, 600));
    run.assume("time is virtual: the broker's clock and timers are driven by the harness, deadlines are judged at 0.1 s to 0.5 s resolution");
    timers::drive(&mut run, cases);
    run.finish()
}

fn limits_run(id: &str, cases: (u64, u64)) {
    let rule = match id {
        "C15" => "distinct histories of packets and messages of sizes around the limits of both sides",
        "C16" => "distinct histories of alias bindings, uses and invalid uses",
        _ => "distinct histories of connects, announcements and requests within and beyond them",
    };
    let mut run = Run::new(id, rule, (40, 600));
    limits::drive(&mut run, cases);
    run.finish()
}

/// The same guarantees with the broker on several threads.
fn parallel(run: &mut Run) {
    if !run.tail() || monlib::instrumented() || run.violated() || std::env::var_os("MON_CASE").is_some() {
        return;
    }
    run.assume("parallel storms: the operating system chooses the interleaving; a slow answer is one that takes 20 s");
    let secs = if run.quick() { 15 } else { 150 };
    storm::phase(run, secs);
}

/// Storms alone; used under sanitizers.
pub fn storm() {
    let mut run = Run::new(&std::env::var("STORM_AS").unwrap_or("C29".into()), "distinct storms in which at least one delivery was judged", (20, 60));
    let secs = std::env::var("STORM_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(10);
    storm::phase(&mut run, secs);
    run.finish()
}

pub fn known(id: &str) -> bool {
    id.strip_prefix('C').and_then(|n| n.parse::<u32>().ok()).is_some_and(|n| (1..=33).contains(&n) && ![19, 20, 22, 28, 29, 31].contains(&n))
}

/// Whether the numbered cases are followed by storms.
pub fn stormy(id: &str) -> bool {
    ["C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C12", "C23"].contains(&id)
}

pub fn dispatch(id: &str) -> bool {
    let b = Prof::base();
    let h = HProf::base();
    match id {
        "C01" => model_run(id, Prof { dollar: 8, depth: 4, retain: 5, ..b }, (8000, 400000)),
        "C02" => model_run(id, Prof { time: 4, retain: 60, depth: 3, props: 30, ..b }, (8000, 400000)),
        "C06" => model_run(id, Prof { max_qos: vec![0, 1, 2, 2], retain: 30, share: 10, ..b }, (8000, 400000)),
        "C07" => model_run(id, Prof { time: 5, props: 40, persist: 75, reconnect: 25, takeover: 8, ..b }, (8000, 400000)),
        "C08" => model_run(id, Prof { persist: 70, reconnect: 20, takeover: 12, mixed_gen: true, ..b }, (8000, 400000)),
        "C10" => model_run(id, Prof { will: 80, reconnect: 30, takeover: 10, bad_end: 60, ..b }, (8000, 400000)),
        "C12" => model_run(id, Prof { share: 70, retain: 3, vers: vec![crate::codec::Ver::V5, crate::codec::Ver::V5, crate::codec::Ver::V311], ..b }, (8000, 400000)),
        "C13" => model_run(id, Prof { retain: 35, nolocal: 30, subid: 60, share: 10, vers: vec![crate::codec::Ver::V5, crate::codec::Ver::V5, crate::codec::Ver::V311], ..b }, (8000, 400000)),
        "C33" => model_run(id, Prof { time: 10, props: 80, will: 30, retain: 30, persist: 50, reconnect: 20, ..b }, (8000, 400000)),
        "C03" => hist_run(id, HProf { drop: 9, takeover: 5, ..h }, (3000, 200000)),
        "C04" => hist_run(id, HProf { qos: vec![0, 1, 2, 2, 2], sub_qos: vec![0, 1, 2, 2, 2], dups: 12, drop: 8, ..h }, (3000, 200000)),
        "C05" => hist_run(id, HProf { one_topic: true, stall: 15, ..h }, (3000, 200000)),
        "C14" => hist_run(id, HProf { small_window: 80, manual: 90, sub_qos: vec![1, 2], ..h }, (3000, 200000)),
        "C09" | "C23" => life_run(id),
        "C11" => timers_run(id, (2500, 100000)),
        "C17" => timers_run(id, (1200, 50000)),
        "C26" => timers_run(id, (1500, 50000)),
        "C15" => limits_run(id, (4000, 200000)),
        "C16" => limits_run(id, (4000, 200000)),
        "C30" => limits_run(id, (4000, 200000)),
        "C18" => {
            let mut run = Run::new(id, "distinct histories of connection attempts with at least one refused", (40, 600));
            run.assume("PBKDF2, HMAC and SHA-2 of the ring crate are right");
            authn::gate_drive(&mut run, (4000, 200000));
            run.finish()
        }
        "C21" => {
            let mut run = Run::new(id, "distinct stores and files written, read and tried against a broker", (30, 600));
            run.assume("HMAC and SHA-2 of the ring crate are right");
            authn::store_drive(&mut run, (40000, 2000000));
            run.finish()
        }
        "C24" => {
            let mut run = Run::new(id, "distinct sieges, each with healthy clients whose traffic was judged", (50, 900));
            run.assume("the packet decoder is a stand-in for the mqtt-proto crate; how strictly it reads is not the broker's doing");
            hostile::drive(&mut run, (3000, 200000));
            run.finish()
        }
        "C25" => {
            let mut run = Run::new(id, "distinct histories of requests, hook answers and slow hooks", (40, 600));
            run.assume("interleavings are those of one executor thread; the sequence of calls is judged at every point of rest");
            hookmon::drive(&mut run, (8000, 400000));
            run.finish()
        }
        "C27" => {
            let mut run = Run::new(id, "distinct carried runs of a script, each compared with its smooth run", (50, 900));
            run.assume("the order between acknowledgements and messages, and between messages of different topics, is not promised");
            frame::drive(&mut run, (1500, 200000));
            run.finish()
        }
        "C28" => {
            let mut run = Run::new(id, "distinct TLS listener policies, each tried by clients in every certificate situation", (90, 900));
            run.assume("rustls and the operating system's loopback sockets behave");
            real::tls_drive(&mut run);
            run.finish()
        }
        "C31" => {
            let mut run = Run::new(id, "distinct histories of clients coming and going with both endpoints read throughout", (60, 900));
            run.assume("counts settle within 20 s of real time");
            real::http_drive(&mut run);
            run.finish()
        }
        "C32" => {
            let mut run = Run::new(id, "distinct configurations judged and serialised", (30, 600));
            run.assume("serialisation is observed through serde_json: the YAML crate of the command line program is not available here");
            confcheck::drive(&mut run, (200000, 5000000));
            run.finish()
        }
        _ => return false,
    }
    true
}
