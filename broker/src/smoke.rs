use crate::codec::*;
use crate::world::*;
use monlib::Rng;
use std::time::{Duration, Instant};

pub fn run() {
    let t = Instant::now();
    for n in 0..200u64 {
        let (w, lat) = case(|| async {
            let mut w = World::new(config(), Rng::fork(1, n));
            let a = w.connect(Connect::new(if n % 2 == 0 { Ver::V5 } else { Ver::V311 }, "a", true)).await;
            let b = w.connect(Connect::new(Ver::V5, "b", true)).await;
            w.clis[a].subscribe(&vec![], &[("x/+".into(), 2)]);
            w.settle().await;
            for q in 0..3 {
                let pid = w.clis[b].pid();
                w.clis[b].publish(&Pub { qos: q, topic: "x/y".into(), pid, payload: vec![q; 3], ..Default::default() });
                w.settle().await;
            }
            let t = Instant::now();
            w.settle().await;
            let lat = t.elapsed();
            w.clis[b].ping();
            w.pass(Duration::from_secs(100), Duration::from_secs(1)).await;
            (w, lat)
        });
        if n < 2 {
            for cl in &w.clis {
                println!("{} {:?}\n {:?}\n closed {} {:?}", cl.id, cl.connack, cl.inbox, cl.closed(), cl.outcome);
            }
            println!("{:?} {:?} settle {:?}", w.issues, w.counts(), lat);
        }
    }
    println!("200 cases {:?}", t.elapsed());
}
