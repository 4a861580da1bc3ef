// Demonstrations of the genuine defects repaired in /repo by the "fix:" commits.
// usage: demo_fixes <name>; exit 0 = behaviour is right, nonzero/crash = defect.
// Not used by any check (the checks are static); kept as the record of what failed.
#include <cstdio>
#include <cstring>
#include <string>
#include "src/rawnode.h"
#include "src/storage.h"
#include "src/raftpb/confchange.h"
using namespace craft;
static std::shared_ptr<Logger> L() { return std::make_shared<ConsoleLogger>(); }
static EntryPtr E(uint64_t i, uint64_t t) { auto e = std::make_shared<raftpb::Entry>(); e->set_index(i); e->set_term(t); return e; }
static Raft::Config Cfg(std::shared_ptr<MemoryStorage> s) {
  Raft::Config c; c.id = 1; c.election_tick = 10; c.heartbeat_tick = 1; c.storage = s;
  c.max_size_per_msg = 1 << 20; c.max_inflight_msgs = 256; c.logger = L(); return c; }
int main(int argc, char** argv) {
  std::string w = argc > 1 ? argv[1] : "";
  if (w == "bootstrap") {   // Bootstrap on non-empty storage must be refused
    auto s = std::make_shared<MemoryStorage>(L());
    s->Append({E(1, 1), E(2, 1)});
    raftpb::HardState hs; hs.set_term(3); hs.set_commit(0); s->SetHardState(hs);
    auto c = Cfg(s); auto n = RawNode::New(c);
    std::vector<Peer> peers; peers.push_back(Peer{1, ""});
    return n->Bootstrap(peers).IsOK() ? 1 : 0;
  }
  if (w == "entries") {     // Entries() with a high log index after compaction
    MemoryStorage s(L());
    auto snap = std::make_shared<raftpb::Snapshot>();
    snap->mutable_metadata()->set_index(100000000000ull); snap->mutable_metadata()->set_term(1);
    s.ApplySnapshot(snap);
    s.Append({E(100000000001ull, 1), E(100000000002ull, 1)});
    auto [es, st] = s.Entries(100000000001ull, 100000000003ull, UINT64_MAX);
    return st.IsOK() && es.size() == 2 && es[0]->index() == 100000000001ull ? 0 : 1;
  }
  if (w == "createsnap") {  // a snapshot handed out earlier must not change under its holder
    MemoryStorage s(L());
    s.Append({E(1, 1), E(2, 1), E(3, 2)});
    raftpb::ConfState cs; cs.add_voters(1);
    s.CreateSnapshot(1, &cs, "one");
    auto [held, st] = s.SnapShot();
    s.CreateSnapshot(3, &cs, "three");
    return held->metadata().index() == 1 && held->data() == "one" ? 0 : 1;
  }
  if (w == "createsnap_compacted") {  // an index below the first kept entry
    MemoryStorage s(L());
    s.Append({E(1, 1), E(2, 1), E(3, 2), E(4, 2)});
    s.Compact(3);
    raftpb::ConfState cs; cs.add_voters(1);
    auto [sp, st] = s.CreateSnapshot(2, &cs, "x");
    return st.IsOK() ? 1 : 0;
  }
  if (w == "inflights") {   // a window size that does not fit 32 bits
    Inflights in(L(), INT64_MAX);
    for (int i = 0; i < 100; i++) in.Add(i);
    return in.Count() == 100 && in.Buffer().size() >= 100 ? 0 : 1;
  }
  if (w == "freefirst") {   // documented as a no-op if nothing is inflight
    Inflights in(L(), 4); in.FreeFirstOne(); return in.Count() == 0 ? 0 : 1;
  }
  if (w == "at") {          // JointConfig::At bounds
    struct { JointConfig c; MajorityConfig canary[32]; } x;
    for (size_t i = 2; i < 40; i++) if (&x.c.At(i) != &x.c.At(0)) return 1;
    return 0;
  }
  if (w == "readystr") { Ready rd; rd.must_sync = false; return rd.String().empty(); }
  if (w == "readystr2") { Ready rd; rd.must_sync = false; rd.snapshot = std::make_shared<raftpb::Snapshot>();
    rd.snapshot->mutable_metadata()->set_index(77); return rd.String().find("snapshot index=77") == std::string::npos; }
  if (w == "cursor") { Ready rd; return rd.AppliedCursor() != 0; }
  if (w == "parse") { auto [c, s] = ConfChangesFromString("vfoo"); return s.IsOK() ? 1 : 0; }
  if (w == "parse2") { auto [c, s] = ConfChangesFromString("v1x"); return s.IsOK() ? 1 : 0; }
  if (w == "asv2") { ConfChangeI c; return c.AsV2().changes_size(); }
  return 2;
}
