//! A hook that records every call and answers as the monitor tells it to.
use akasa_core::mqtt_proto::{v3, v5};
use akasa_core::*;
use std::collections::VecDeque;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub what: &'static str,
    pub id: String,
    pub detail: String,
    pub flag: bool,
    pub body: Vec<u8>,
    pub len: usize,
}

#[derive(Default)]
pub struct HookState {
    pub calls: Vec<Call>,
    pub connect: VecDeque<HookResult<HookConnectCode>>,
    pub publish: VecDeque<HookResult<HookPublishCode>>,
    pub subscribe: VecDeque<HookResult<HookSubscribeCode>>,
    pub unsubscribe: VecDeque<HookResult<HookUnsubscribeCode>>,
    pub actions: VecDeque<HookResult<Vec<HookAction>>>,
    pub disconnect: VecDeque<HookResult<()>>,
    /// replace the payload / topic of the next publish
    pub edit_publish: VecDeque<Option<(String, Vec<u8>)>>,
    /// replace the filters of the next subscribe
    pub edit_subscribe: VecDeque<Option<Vec<(String, u8)>>>,
    /// replace the filters of the next unsubscribe
    pub edit_unsubscribe: VecDeque<Option<Vec<String>>>,
    /// how many times a hook future answers Pending first
    pub delay: usize,
    /// the queued answers, edits and the gate concern this client only
    pub only: Option<String>,
    /// the n-th call from now waits until the gate is opened
    pub gate_in: Option<usize>,
    pub gate: Option<tokio::sync::oneshot::Sender<()>>,
}

impl HookState {
    fn concerns(&self, id: &str) -> bool {
        self.only.as_ref().is_none_or(|o| o == id)
    }
}

#[derive(Clone, Default)]
pub struct RecHook(pub Arc<Mutex<HookState>>);

impl RecHook {
    pub fn st(&self) -> std::sync::MutexGuard<'_, HookState> {
        self.0.lock().unwrap()
    }
    fn rec(&self, what: &'static str, id: &str, detail: String, flag: bool, body: &[u8], len: usize) {
        self.st().calls.push(Call { what, id: id.to_string(), detail, flag, body: body.to_vec(), len });
    }
    async fn wait(&self, id: &str) {
        let n = self.st().delay;
        for _ in 0..n {
            crate::clock::bump();
            tokio::task::yield_now().await;
        }
        let gate = {
            let mut s = self.st();
            if !s.concerns(id) {
                None
            } else if s.gate_in == Some(0) {
                s.gate_in = None;
                let (tx, rx) = tokio::sync::oneshot::channel();
                s.gate = Some(tx);
                Some(rx)
            } else {
                s.gate_in = s.gate_in.map(|n| n - 1);
                None
            }
        };
        if let Some(rx) = gate {
            let _ = rx.await;
        }
    }
    /// Opens the gate a call is waiting at.
    pub fn open_gate(&self) -> bool {
        let g = self.st().gate.take();
        g.map(|g| g.send(())).is_some()
    }
}

fn qos(q: u8) -> mqtt_proto::QoS {
    mqtt_proto::QoS::try_from(q).unwrap()
}
fn filters5(s: &v5::Subscribe) -> String {
    s.topics.iter().map(|(f, o)| format!("{}:{}", &**f, o.max_qos as u8)).collect::<Vec<_>>().join(",")
}
fn filters3(s: &v3::Subscribe) -> String {
    s.topics.iter().map(|(f, q)| format!("{}:{}", &**f, *q as u8)).collect::<Vec<_>>().join(",")
}
macro_rules! pop {
    ($s:expr, $id:expr, $f:ident, $d:expr) => {{
        let s = $s;
        let r = {
            let mut g = s.st();
            if g.concerns($id) { g.$f.pop_front() } else { None }
        };
        s.wait($id).await;
        r.unwrap_or(Ok($d))
    }};
}

impl Hook for RecHook {
    async fn v5_before_connect(&self, peer: SocketAddr, c: &v5::Connect) -> HookResult<HookConnectCode> {
        self.rec("before_connect", &c.client_id, peer.to_string(), c.clean_start, &[], 0);
        pop!(self, &c.client_id, connect, HookConnectCode::Success)
    }
    async fn v5_after_connect(&self, s: &SessionV5, sp: bool) -> HookResult<Vec<HookAction>> {
        self.rec("after_connect", &s.client_identifier, String::new(), sp, &[], 0);
        pop!(self, &s.client_identifier, actions, vec![])
    }
    async fn v5_before_publish(&self, s: &SessionV5, n: usize, b: &[u8], p: &mut v5::Publish, ch: &mut bool) -> HookResult<HookPublishCode> {
        self.rec("before_publish", &s.client_identifier, format!("{}={}", &*p.topic_name, String::from_utf8_lossy(&p.payload)), *ch, b, n);
        let e = {
            let mut g = self.st();
            if g.concerns(&s.client_identifier) { g.edit_publish.pop_front().flatten() } else { None }
        };
        if let Some((t, pl)) = e {
            p.topic_name = mqtt_proto::TopicName::try_from(t).unwrap();
            p.payload = pl.into();
            *ch = true;
        }
        pop!(self, &s.client_identifier, publish, HookPublishCode::Success)
    }
    async fn v5_after_publish(&self, s: &SessionV5, n: usize, b: &[u8], p: &v5::Publish, ch: bool) -> HookResult<Vec<HookAction>> {
        self.rec("after_publish", &s.client_identifier, format!("{}={}", &*p.topic_name, String::from_utf8_lossy(&p.payload)), ch, b, n);
        pop!(self, &s.client_identifier, actions, vec![])
    }
    async fn v5_before_subscribe(&self, s: &SessionV5, n: usize, b: &[u8], p: &mut v5::Subscribe, ch: &mut bool) -> HookResult<HookSubscribeCode> {
        self.rec("before_subscribe", &s.client_identifier, filters5(p), *ch, b, n);
        let e = {
            let mut g = self.st();
            if g.concerns(&s.client_identifier) { g.edit_subscribe.pop_front().flatten() } else { None }
        };
        if let Some(f) = e {
            let o = p.topics[0].1;
            p.topics = f
                .into_iter()
                .map(|(f, q)| {
                    let mut o = o;
                    o.max_qos = qos(q);
                    (mqtt_proto::TopicFilter::try_from(f).unwrap(), o)
                })
                .collect();
            *ch = true;
        }
        pop!(self, &s.client_identifier, subscribe, HookSubscribeCode::Success)
    }
    async fn v5_after_subscribe(&self, s: &SessionV5, n: usize, b: &[u8], p: &v5::Subscribe, ch: bool, codes: Option<Vec<v5::SubscribeReasonCode>>) -> HookResult<Vec<HookAction>> {
        let c = codes.map(|c| c.iter().map(|x| (*x as u8).to_string()).collect::<Vec<_>>().join("/")).unwrap_or("-".into());
        self.rec("after_subscribe", &s.client_identifier, format!("{} {c}", filters5(p)), ch, b, n);
        pop!(self, &s.client_identifier, actions, vec![])
    }
    async fn v5_before_unsubscribe(&self, s: &SessionV5, n: usize, b: &[u8], p: &mut v5::Unsubscribe, ch: &mut bool) -> HookResult<HookUnsubscribeCode> {
        self.rec("before_unsubscribe", &s.client_identifier, p.topics.iter().map(|f| f.to_string()).collect::<Vec<_>>().join(","), *ch, b, n);
        let e = {
            let mut g = self.st();
            if g.concerns(&s.client_identifier) { g.edit_unsubscribe.pop_front().flatten() } else { None }
        };
        if let Some(f) = e {
            p.topics = f.into_iter().map(|f| mqtt_proto::TopicFilter::try_from(f).unwrap()).collect();
            *ch = true;
        }
        pop!(self, &s.client_identifier, unsubscribe, HookUnsubscribeCode::Success)
    }
    async fn v5_after_unsubscribe(&self, s: &SessionV5, n: usize, b: &[u8], p: &v5::Unsubscribe, ch: bool) -> HookResult<Vec<HookAction>> {
        self.rec("after_unsubscribe", &s.client_identifier, p.topics.iter().map(|f| f.to_string()).collect::<Vec<_>>().join(","), ch, b, n);
        pop!(self, &s.client_identifier, actions, vec![])
    }
    async fn v5_after_disconnect(&self, s: &SessionV5, taken: bool) -> HookResult<()> {
        self.rec("after_disconnect", &s.client_identifier, String::new(), taken, &[], 0);
        pop!(self, &s.client_identifier, disconnect, ())
    }
    async fn v3_before_connect(&self, peer: SocketAddr, c: &v3::Connect) -> HookResult<HookConnectCode> {
        self.rec("before_connect", &c.client_id, peer.to_string(), c.clean_session, &[], 0);
        pop!(self, &c.client_id, connect, HookConnectCode::Success)
    }
    async fn v3_after_connect(&self, s: &SessionV3, sp: bool) -> HookResult<Vec<HookAction>> {
        self.rec("after_connect", &s.client_identifier, String::new(), sp, &[], 0);
        pop!(self, &s.client_identifier, actions, vec![])
    }
    async fn v3_before_publish(&self, s: &SessionV3, n: usize, b: &[u8], p: &mut v3::Publish, ch: &mut bool) -> HookResult<HookPublishCode> {
        self.rec("before_publish", &s.client_identifier, format!("{}={}", &*p.topic_name, String::from_utf8_lossy(&p.payload)), *ch, b, n);
        let e = {
            let mut g = self.st();
            if g.concerns(&s.client_identifier) { g.edit_publish.pop_front().flatten() } else { None }
        };
        if let Some((t, pl)) = e {
            p.topic_name = mqtt_proto::TopicName::try_from(t).unwrap();
            p.payload = pl.into();
            *ch = true;
        }
        pop!(self, &s.client_identifier, publish, HookPublishCode::Success)
    }
    async fn v3_after_publish(&self, s: &SessionV3, n: usize, b: &[u8], p: &v3::Publish, ch: bool) -> HookResult<Vec<HookAction>> {
        self.rec("after_publish", &s.client_identifier, format!("{}={}", &*p.topic_name, String::from_utf8_lossy(&p.payload)), ch, b, n);
        pop!(self, &s.client_identifier, actions, vec![])
    }
    async fn v3_before_subscribe(&self, s: &SessionV3, n: usize, b: &[u8], p: &mut v3::Subscribe, ch: &mut bool) -> HookResult<HookSubscribeCode> {
        self.rec("before_subscribe", &s.client_identifier, filters3(p), *ch, b, n);
        let e = {
            let mut g = self.st();
            if g.concerns(&s.client_identifier) { g.edit_subscribe.pop_front().flatten() } else { None }
        };
        if let Some(f) = e {
            p.topics = f.into_iter().map(|(f, q)| (mqtt_proto::TopicFilter::try_from(f).unwrap(), qos(q))).collect();
            *ch = true;
        }
        pop!(self, &s.client_identifier, subscribe, HookSubscribeCode::Success)
    }
    async fn v3_after_subscribe(&self, s: &SessionV3, n: usize, b: &[u8], p: &v3::Subscribe, ch: bool, codes: Option<Vec<v3::SubscribeReturnCode>>) -> HookResult<Vec<HookAction>> {
        let c = codes.map(|c| c.iter().map(|x| (*x as u8).to_string()).collect::<Vec<_>>().join("/")).unwrap_or("-".into());
        self.rec("after_subscribe", &s.client_identifier, format!("{} {c}", filters3(p)), ch, b, n);
        pop!(self, &s.client_identifier, actions, vec![])
    }
    async fn v3_before_unsubscribe(&self, s: &SessionV3, n: usize, b: &[u8], p: &mut v3::Unsubscribe, ch: &mut bool) -> HookResult<HookUnsubscribeCode> {
        self.rec("before_unsubscribe", &s.client_identifier, p.topics.iter().map(|f| f.to_string()).collect::<Vec<_>>().join(","), *ch, b, n);
        let e = {
            let mut g = self.st();
            if g.concerns(&s.client_identifier) { g.edit_unsubscribe.pop_front().flatten() } else { None }
        };
        if let Some(f) = e {
            p.topics = f.into_iter().map(|f| mqtt_proto::TopicFilter::try_from(f).unwrap()).collect();
            *ch = true;
        }
        pop!(self, &s.client_identifier, unsubscribe, HookUnsubscribeCode::Success)
    }
    async fn v3_after_unsubscribe(&self, s: &SessionV3, n: usize, b: &[u8], p: &v3::Unsubscribe, ch: bool) -> HookResult<Vec<HookAction>> {
        self.rec("after_unsubscribe", &s.client_identifier, p.topics.iter().map(|f| f.to_string()).collect::<Vec<_>>().join(","), ch, b, n);
        pop!(self, &s.client_identifier, actions, vec![])
    }
    async fn v3_after_disconnect(&self, s: &SessionV3, taken: bool) -> HookResult<()> {
        self.rec("after_disconnect", &s.client_identifier, String::new(), taken, &[], 0);
        pop!(self, &s.client_identifier, disconnect, ())
    }
}
