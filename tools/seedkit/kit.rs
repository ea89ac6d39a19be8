// Shared parts of the demonstrations: stores in memory, an app that records, a
// process with a prefilled log.
use super::*;
use std::sync::Mutex as M;

#[derive(Clone, Default)]
pub struct Log(pub Arc<M<BTreeMap<Index, Entry>>>, pub Arc<M<u64>>);
#[async_trait::async_trait]
impl RaftLogStore for Log {
    async fn insert_entry(&self, i: Index, e: Entry) -> Result<()> {
        *self.1.lock().unwrap() += 1;
        self.0.lock().unwrap().insert(i, e);
        Ok(())
    }
    async fn delete_entries_before(&self, i: Index) -> Result<()> {
        let mut m = self.0.lock().unwrap();
        let k = m.split_off(&i);
        *m = k;
        Ok(())
    }
    async fn get_entry(&self, i: Index) -> Result<Option<Entry>> {
        Ok(self.0.lock().unwrap().get(&i).cloned())
    }
    async fn get_head_index(&self) -> Result<Index> {
        Ok(self.0.lock().unwrap().keys().next().copied().unwrap_or(0))
    }
    async fn get_last_index(&self) -> Result<Index> {
        Ok(self.0.lock().unwrap().keys().last().copied().unwrap_or(0))
    }
}
pub struct B {
    pub b: Ballot,
    pub saves: u64,
    pub fail: bool,
    pub slow: u64,
}
#[derive(Clone)]
pub struct Bal(pub Arc<M<B>>);
#[async_trait::async_trait]
impl RaftBallotStore for Bal {
    async fn save_ballot(&self, v: Ballot) -> Result<()> {
        let slow = self.0.lock().unwrap().slow;
        if slow > 0 {
            tokio::time::sleep(Duration::from_millis(slow)).await;
        }
        let mut g = self.0.lock().unwrap();
        ensure!(!g.fail, "disk");
        g.saves += 1;
        g.b = v;
        Ok(())
    }
    async fn load_ballot(&self) -> Result<Ballot> {
        Ok(self.0.lock().unwrap().b.clone())
    }
}
#[derive(Default)]
pub struct A {
    pub writes: Vec<(Vec<u8>, Index)>,
    pub reads: u64,
    pub installed: Vec<Index>,
    pub saved: Vec<Index>,
    pub deleted: Vec<Index>,
    pub latest: Index,
    pub fail_write: u64,
    pub fail_install: u64,
}
#[derive(Clone, Default)]
pub struct TApp(pub Arc<M<A>>);
#[async_trait::async_trait]
impl RaftApp for TApp {
    async fn process_read(&self, _: &[u8]) -> Result<Bytes> {
        let mut g = self.0.lock().unwrap();
        g.reads += 1;
        Ok(Bytes::from(format!("{}", g.writes.len())))
    }
    async fn process_write(&self, r: &[u8], i: Index) -> Result<Bytes> {
        let mut g = self.0.lock().unwrap();
        if g.fail_write > 0 {
            g.fail_write -= 1;
            anyhow::bail!("write");
        }
        g.writes.push((r.to_vec(), i));
        Ok(Bytes::from(format!("{}", g.writes.len())))
    }
    async fn install_snapshot(&self, i: Index) -> Result<()> {
        let mut g = self.0.lock().unwrap();
        if g.fail_install > 0 {
            g.fail_install -= 1;
            anyhow::bail!("install");
        }
        g.installed.push(i);
        Ok(())
    }
    async fn save_snapshot(&self, _: SnapshotStream, i: Index) -> Result<()> {
        self.0.lock().unwrap().saved.push(i);
        Ok(())
    }
    async fn open_snapshot(&self, _: Index) -> Result<SnapshotStream> {
        Ok(Box::pin(futures::stream::iter(vec![Ok(Bytes::from_static(b"x"))])))
    }
    async fn delete_snapshots_before(&self, i: Index) -> Result<()> {
        self.0.lock().unwrap().deleted.push(i);
        Ok(())
    }
    async fn get_latest_snapshot(&self) -> Result<Index> {
        Ok(self.0.lock().unwrap().latest)
    }
}
pub fn id(i: u16) -> NodeId {
    format!("http://127.0.0.1:{}", 1 + i).parse().unwrap()
}
pub fn ids(v: &[u16]) -> HashSet<NodeId> {
    v.iter().map(|i| id(*i)).collect()
}
pub fn cfg(v: &[u16]) -> Bytes {
    Command::serialize(Command::ClusterConfiguration { membership: ids(v) })
}
pub fn snap(v: &[u16]) -> Bytes {
    Command::serialize(Command::Snapshot { membership: ids(v) })
}
pub fn bar(t: u64) -> Bytes {
    Command::serialize(Command::Barrier(t))
}
pub fn exec(m: &'static [u8], r: &str) -> Bytes {
    Command::serialize(Command::ExecuteRequest { message: m, request_id: r.to_string() })
}
pub fn ck(term: u64, index: u64) -> Clock {
    Clock { term, index }
}
/// Entries 1.. with these terms and commands.
pub fn fill(v: Vec<(u64, Bytes)>) -> Log {
    let l = Log::default();
    let mut prev = ck(0, 0);
    for (k, (t, c)) in v.into_iter().enumerate() {
        let this = ck(t, k as u64 + 1);
        l.0.lock().unwrap().insert(this.index, Entry { prev_clock: prev, this_clock: this, command: c });
        prev = this;
    }
    l
}
pub struct W {
    pub p: RaftProcess,
    pub log: Log,
    pub bal: Bal,
    pub app: TApp,
    pub node: RaftNode,
}
/// Node 0 over this log and ballot.
pub async fn world(log: Log, term: u64, voted: Option<u16>) -> W {
    let node = RaftNode::new(id(0));
    let bal = Bal(Arc::new(M::new(B {
        b: Ballot { cur_term: term, voted_for: voted.map(id) },
        saves: 0,
        fail: false,
        slow: 0,
    })));
    let app = TApp::default();
    let p = RaftProcess::new(app.clone(), log.clone(), bal.clone(), node.get_driver(0)).await.unwrap();
    W { p, log, bal, app, node }
}
impl W {
    pub async fn vote(&self, from: u16, term: u64, last: Clock, force: bool, pre: bool) -> Result<bool> {
        self.p
            .request_vote(request::RequestVote { candidate_id: id(from), candidate_clock: last, vote_term: term, force_vote: force, pre_vote: pre })
            .await
    }
    pub async fn beat(&self, from: u16, term: u64, commit: u64) -> Result<()> {
        self.p
            .receive_heartbeat(id(from), request::Heartbeat { leader_term: term, leader_commit_index: commit })
            .await
    }
    pub async fn send(&self, from: u16, prev: Clock, es: Vec<Option<(Clock, Bytes)>>) -> Result<(u64, u64)> {
        let v: Vec<_> = es
            .into_iter()
            .map(|e| e.map(|(c, b)| request::ReplicationStreamElem { this_clock: c, command: b }))
            .collect();
        let r = self
            .p
            .send_replication_stream(request::ReplicationStream { sender_id: id(from), prev_clock: prev, entries: Box::pin(futures::stream::iter(v)) })
            .await?;
        Ok((r.n_inserted, r.log_last_index))
    }
    pub fn commit(&self) -> u64 {
        self.p.command_log.commit_pointer.load(Ordering::SeqCst)
    }
    pub fn ballot(&self) -> Ballot {
        self.bal.0.lock().unwrap().b.clone()
    }
}
