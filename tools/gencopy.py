#!/usr/bin/env python3
"""Make a copy of /repo's current sorock sources that is linked against the
environment models in /verif/kani/stubs, with the harness modules attached.

The sources are copied verbatim, except:
  * lib.rs gets `extern crate kstd as std;` (collections/clock/thread models)
    and the harness support modules;
  * generated/sorock.rs keeps its message types (protobuf attributes dropped);
    the gRPC client/server plumbing is replaced by a recording stand-in;
  * reflection_service.rs (gRPC reflection) is left out.
Harness modules are attached as `mod kh;` children so that they see private
items. For symbolic execution, everything is then rewritten from async to
synchronous form by deasync.py; the native replay build keeps it async.
"""
import os, re, shutil, sys
import deasync

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

# accessor module (under kani/h) -> source file it is attached to
ATTACH = {
    "voter.rs": "process/voter/mod.rs",
    "command_log.rs": "process/command_log/mod.rs",
    "peer_svc.rs": "process/peer_svc/mod.rs",
    "raft_process.rs": "process/raft_process/mod.rs",
    "query_queue.rs": "process/query_queue.rs",
    "redb.rs": "backends/redb/mod.rs",
    "communicator.rs": "communicator/mod.rs",
}
# harness modules p_*.rs are attached to this one
HARNESS_AT = "process/mod.rs"

RPCS = [  # method, request, response
    ("write", "WriteRequest", "Response"),
    ("read", "ReadRequest", "Response"),
    ("process_kern_request", "KernRequest", "()"),
    ("request_vote", "VoteRequest", "VoteResponse"),
    ("add_server", "AddServerRequest", "()"),
    ("remove_server", "RemoveServerRequest", "()"),
    ("send_heartbeat", "Heartbeat", "()"),
    ("send_timeout_now", "TimeoutNow", "()"),
]


def gen_messages(src):
    head = src.split("/// Generated client implementations.")[0]
    head = re.sub(r"#\[prost\((?:[^()]|\([^()]*\))*\)\]", "", head)
    head = head.replace("::prost::Message", "Debug, Default")
    head = head.replace("::prost::Oneof", "Debug")
    head = head.replace("::prost::bytes::Bytes", "::bytes::Bytes")
    head = head.replace("::prost::bytes::", "::bytes::")
    head = head.replace("::prost::alloc::", "::std::")
    out = [head]
    # recording stand-in for the network
    out.append("pub mod knet {\n    use super::*;\n")
    for m, q, r in RPCS:
        out.append(f"    kenv::gstatic! {{ pub {m.upper()}: Option<fn(u8, {q}) -> Option<{r}>> = None; }}\n")
    out.append(
        "    pub type RepStream = std::pin::Pin<Box<dyn futures::Stream<Item = ReplicationStreamChunk> + Send>>;\n"
        "    kenv::gstatic! { pub SEND_REPLICATION_STREAM: Option<fn(u8, RepStream) -> Option<ReplicationStreamResponse>> = None; }\n"
        "    kenv::gstatic! { pub GET_SNAPSHOT: Option<fn(u8, GetSnapshotRequest) -> Option<tonic::Streaming<SnapshotChunk>>> = None; }\n}\n")
    out.append("pub mod raft_client {\n    use super::*;\n"
               "    #[derive(Debug, Clone)]\n    pub struct RaftClient<T> { inner: T }\n"
               "    impl<T> RaftClient<T> { pub fn new(inner: T) -> Self { Self { inner } } }\n"
               "    impl RaftClient<tonic::transport::channel::Channel> {\n")
    for m, q, r in RPCS:
        out.append(f"""        pub async fn {m}(&mut self, request: impl tonic::IntoRequest<{q}>) -> Result<tonic::Response<{r}>, tonic::Status> {{
            kenv::fut::yield_point().await;
            match unsafe {{ knet::{m.upper()}.1 }} {{
                Some(f) => match f(self.inner.0.0, request.into_request().into_inner()) {{
                    Some(x) => Ok(tonic::Response::new(x)),
                    None => Err(tonic::Status::unknown("")),
                }},
                None => Err(tonic::Status::unknown("")),
            }}
        }}
""")
    out.append("""        pub async fn send_replication_stream<S: futures::Stream<Item = ReplicationStreamChunk> + Send + 'static>(&mut self, request: S) -> Result<tonic::Response<ReplicationStreamResponse>, tonic::Status> {
            kenv::fut::yield_point().await;
            match unsafe { knet::SEND_REPLICATION_STREAM.1 } {
                Some(f) => match f(self.inner.0.0, Box::pin(request)) {
                    Some(x) => Ok(tonic::Response::new(x)),
                    None => Err(tonic::Status::unknown("")),
                },
                None => Err(tonic::Status::unknown("")),
            }
        }
        pub async fn get_snapshot(&mut self, request: impl tonic::IntoRequest<GetSnapshotRequest>) -> Result<tonic::Response<tonic::Streaming<SnapshotChunk>>, tonic::Status> {
            kenv::fut::yield_point().await;
            match unsafe { knet::GET_SNAPSHOT.1 } {
                Some(f) => match f(self.inner.0.0, request.into_request().into_inner()) {
                    Some(x) => Ok(tonic::Response::new(x)),
                    None => Err(tonic::Status::unknown("")),
                },
                None => Err(tonic::Status::unknown("")),
            }
        }
    }
}
""")
    # the server trait, as generated
    m = re.search(r"    pub trait Raft:.*?\n    }\n", src, re.S)
    trait = m.group(0).replace("tonic::codegen::tokio_stream::Stream", "futures::Stream")
    trait = re.sub(r"std::result::Result", "std::result::Result", trait)
    out.append("pub mod raft_server {\n    #[tonic::async_trait]\n" + trait +
               "    pub struct RaftServer<T> { pub inner: std::sync::Arc<T> }\n"
               "    impl<T> RaftServer<T> { pub fn new(inner: T) -> Self { Self { inner: std::sync::Arc::new(inner) } } }\n"
               "    impl<T> Clone for RaftServer<T> { fn clone(&self) -> Self { Self { inner: self.inner.clone() } } }\n}\n")
    return "".join(out)


def main(dst, mods=None, native=False, bin=False, prop=None):
    src = os.path.join(REPO, "sorock/src")
    d = os.path.join(dst, "src")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(dst, exist_ok=True)
    shutil.copytree(src, d)
    for g in os.listdir(os.path.join(d, "generated")):
        if g != "sorock.rs":
            os.remove(os.path.join(d, "generated", g))
    gp = os.path.join(d, "generated/sorock.rs")
    g = open(gp).read()
    open(gp, "w").write(gen_messages(g))
    open(os.path.join(d, "reflection_service.rs"), "w").write("")
    hd = os.path.join(d, "kh")
    lp = os.path.join(d, "lib.rs")
    l = open(lp).read()
    # after the leading inner attributes / inner docs
    lines = l.split("\n")
    i = 0
    while i < len(lines) and (lines[i].startswith("#![") or lines[i].startswith("//") or not lines[i].strip()):
        i += 1
    lines.insert(i, "#[allow(unused_extern_crates)]\nextern crate kstd as std;\n"
                 "#[allow(dead_code, unused_imports, static_mut_refs)]\n"
                 f"#[path = \"{hd}/support.rs\"]\nmod khs;\n")
    shutil.copytree(os.path.join(VERIF, "kani/h"), hd)
    l = "\n".join(lines) + "\n#[doc(hidden)]\npub mod khs_on {\n" + "".join(
        f"    pub const P{i:02}: bool = {'true' if prop in (None, f'P{i:02}') else 'false'};\n" for i in range(1, 41)) + "}\n"
    lines = [l]
    open(lp, "w").write("#![allow(static_mut_refs, unused_imports, dead_code)]\n" + "\n".join(lines))
    hs = [(h, f, "kh") for h, f in ATTACH.items()]
    hs += [("hs.rs", HARNESS_AT, "hs")]
    hs += [(h, HARNESS_AT, h[:-3]) for h in sorted(os.listdir(hd)) if h.startswith("p_") and (mods is None or h[:-3] in mods)]
    for h, f, name in hs:
        hp = os.path.join(hd, h)
        if not os.path.exists(hp):
            continue
        with open(os.path.join(d, f), "a") as fh:
            fh.write(f"\n#[allow(dead_code, unused_imports, static_mut_refs)]\n#[path = \"{hp}\"]\npub(crate) mod {name};\n")
    if not native:
        for p, _, fs in os.walk(d):
            for f in fs:
                f = os.path.join(p, f)
                if f.endswith(".rs"):
                    src = open(f).read()
                    src = deasync.transform(src)
                    # a tag of its own for every enum: a discriminant hidden in the
                    # payload is opaque to the symbolic execution
                    src = src if os.environ.get("NOREPR") else re.sub(r"(?m)^([ \t]*)((?:pub(?:\([^)]*\))? )?enum \w+[^{;]*\{(?!\s*\}))", r"\1#[repr(u8)] \2", src)
                    open(f, "w").write(src)
    if bin:
        names = []
        for h, f, name in hs:
            if name != "kh" and os.path.exists(os.path.join(hd, h)):
                for m in re.finditer(r"kani::proof[^\]]*\]\s*pub fn (\w+)", open(os.path.join(hd, h)).read()):
                    names.append((m.group(1), name))
        with open(os.path.join(d, HARNESS_AT), "a") as fh:
            fh.write("\n#[doc(hidden)]\npub fn kh_run(name: &str) {\n    match name {\n" +
                     "".join(f'        "{n}" => {m}::{n}(),\n' for n, m in names) +
                     '        _ => panic!("no such harness"),\n    }\n}\n')
        open(os.path.join(d, "replay_main.rs"), "w").write('''
fn main() {
    let h = std::env::args().nth(1).unwrap();
    let mut v = vec![];
    for l in std::io::stdin().lines() {
        let l = l.unwrap();
        if !l.is_empty() {
            v.push(l.split(' ').map(|x| x.parse::<u8>().unwrap()).collect());
        }
    }
    kenv::nd::load(v);
    sorock::process::kh_run(&h);
}
''')
    st = os.path.join(VERIF, "kani/stubs")
    deps = {n: n for n in ("async-trait anyhow bincode bytes flume futures moka oneshot phi-detector rand redb "
                           "serde serde_bytes spin tokio tonic tracing kenv kstd").split()}
    deps["http_serde"] = "http_serde"
    if native:
        del deps["async-trait"]
    cargo = ["[package]", 'name = "sorock"', 'version = "0.10.2"', 'edition = "2021"', "", "[lib]",
             'path = "src/lib.rs"', "", "[dependencies]",
             *(['async-stream = "0.3"', 'async-trait = "0.1"'] if native else []), 'derive_more = "0.99"',
             'shrinkwraprs = "0.3"', 'thiserror = "1"']
    for n, p in deps.items():
        cargo.append(f'{n} = {{ path = "{st}/{p}" }}')
    if bin:
        cargo += ["", "[[bin]]", 'name = "replay"', 'path = "src/replay_main.rs"']
    cargo += ["", "[workspace]", "", "[lints.rust]",
              "unexpected_cfgs = { level = \"allow\" }", "",
              "[profile.dev]", "debug-assertions = true", "overflow-checks = true", ""]
    open(os.path.join(dst, "Cargo.toml"), "w").write("\n".join(cargo))
    lock = os.path.join(VERIF, "kani/Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(dst, "Cargo.lock"))


if __name__ == "__main__":
    main(sys.argv[1], [x for x in sys.argv[2:] if x.startswith("p_")] or None, "native" in sys.argv[2:])
