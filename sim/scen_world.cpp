// Worlds of several nodes: simulated network, clock, disks, crashes, restarts
// and partitions around the real library.
#include "scen.h"
#include "api.h"
#include <algorithm>
#include <cerrno>
#include <memory>
#include <queue>

// ------------------------------------------------------------------- machinery
namespace {
struct Chunk2 { size_t off; Bytes data; };
struct FileRec {               // a file: what is durable, and writes not yet synced
  Bytes durable;
  std::vector<Chunk2> pending;
  bool rotten = false;         // bits flipped behind our back
  Bytes view() const {
    Bytes v = durable;
    for (auto &c : pending) {
      if (v.size() < c.off + c.data.size()) v.resize(c.off + c.data.size(), '\0');
      v.replace(c.off, c.data.size(), c.data);
    }
    return v;
  }
};
struct Node {
  int id = 0;
  Proc *p = nullptr;
  bool up = false;
  u64 boots = 0;
  u64 crash_arm = 0;  // next job crashes after that many steps
  std::map<std::string, FileRec> disk;
  std::map<std::string, Bytes> mem;  // lost in a crash
};
struct Ev {
  u64 t, seq;
  int node, item;
  u64 boot;      // node incarnation it belongs to, 0: any
  bool calm;     // no faults any more
  std::function<void()> fn;
};
struct EvLess { bool operator()(const Ev &a, const Ev &b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
struct World2 {
  std::vector<Node> nodes;
  std::priority_queue<Ev, std::vector<Ev>, EvLess> q;
  u64 seq = 0;
  std::map<int, const Item *> items;
  std::map<int, std::map<std::string, u64>> ord;
  std::map<std::pair<int, int>, u64> cut;  // partitioned until
  std::function<void(int, int, const Bytes &)> on_msg;  // in a task of the receiver
  std::function<void(int)> on_boot;                     // in a task of the node
  bool key = false;                                     // nodes need the key library
  bool calm = false;
  int events = 0;
  std::vector<Network> nets;
};
World2 *V;
int mynode() { return cur->p->node; }

void post(int node, u64 delay, int item, std::function<void()> fn, u64 boot = 0) {
  V->q.push({W->now + delay, ++V->seq, node, item, boot, V->calm, std::move(fn)});
}
void crash_disk(Node &n) {  // in a task: what a crash does to data not yet synced
  for (auto &f : n.disk) {
    FileRec &r = f.second;
    for (auto &c : r.pending) {
      u64 q;
      Bytes d = c.data;
      if (fault("lost_write", -1)) continue;
      if (fault("torn_write", -1, &q)) d.resize(q % (d.size() + 1));
      if (r.durable.size() < c.off + d.size()) r.durable.resize(c.off + d.size(), '\0');
      r.durable.replace(c.off, d.size(), d);
    }
    r.pending.clear();
  }
}
void run_job(const std::vector<Ev> &evs);
void node_boot(Node &n) {
  if (n.up) return;
  n.p = boot(n.id);
  n.up = true;
  n.boots++;
  n.crash_arm = 0;
  n.mem.clear();
  note(fmt("boot node %d", n.id));
  Node *pn = &n;
  Ev e{W->now, ++V->seq, n.id, 900000 + n.id, 0, true, [pn] {
    if (V->key) do_init(*cur->item);
    if (V->on_boot) V->on_boot(pn->id);
  }};
  run_job({e});
}
void node_down(Node &n) {
  n.up = false;
  n.mem.clear();
  note(fmt("down node %d", n.id));
}
const Item *item_of(int id) {
  auto it = V->items.find(id);
  return it != V->items.end() ? it->second : synth("world", id);
}
void run_job(const std::vector<Ev> &evs) {
  Node &n = V->nodes[evs[0].node];
  std::vector<Task *> ts;
  for (auto &e : evs) {
    const Ev *pe = &e;
    Node *pn = &n;
    ts.push_back(new_task(n.p, [pe, pn] {
      cur->item = item_of(pe->item);
      cur->ord = V->ord[pe->item];
      cur->nofault = pe->calm || V->calm;
      cur->fired.clear();
      note(fmt("event node %d item %d t %llu", pn->id, pe->item, (unsigned long long)W->now));
      if (pn->crash_arm) { set_crash(pn->crash_arm); pn->crash_arm = 0; }
      pe->fn();
      V->ord[pe->item] = cur->ord;
    }, (int)ts.size()));
  }
  run_tasks(ts);
  V->events++;
  if (W->viol.set) return;
  if (n.p->exited) {
    if (n.p->why != "crash" && n.p->why != "down") { check_exit(n.p); if (W->viol.set) return; }
    node_down(n);
    int id = n.id;
    post(id, 50, 900100 + id, [] {}, ~0ull);  // restart
  }
}
// sends a message; in a task
std::function<Bytes(Bytes, u64)> damage;
void send(int to, const Bytes &m, bool may_damage = true) {
  int from = mynode(), item = cur->item->id;
  u64 q;
  Bytes d = m;
  W->st.probes["messages"]++;
  if (may_damage && damage && fault("corrupt", -1, &q)) d = damage(m, q);
  auto c = V->cut.find({std::min(from, to), std::max(from, to)});
  if (!V->calm && c != V->cut.end() && c->second > W->now) { W->st.fired["partition_drop"]++; return; }
  if (fault("net_drop", -1)) return;
  u64 delay = 1 + draw("delay") % 20;
  if (fault("net_delay", -1, &q)) delay += q % 3000;
  int dup = fault("net_dup", -1) ? 2 : 1;
  for (int i = 0; i < dup; i++) {
    post(to, delay, item, [from, to, d] { V->on_msg(to, from, d); });
    delay += 1 + draw("dupdelay") % 200;
  }
}
void disk_write(Node &n, const std::string &name, const Bytes &data, bool sync) {
  FileRec &f = n.disk[name];
  // replaced in place, in several writes
  size_t o = 0;
  while (o < data.size()) {
    size_t k = fault("split_write", -1) ? 1 + draw("split") % (data.size() - o) : data.size() - o;
    f.pending.push_back({o, data.substr(o, k)});
    o += k;
  }
  f.rotten = false;
  if (sync) {
    if (fault("sync_lost", -1)) { probe("sync_lost"); return; }  // the disk lied
    f.durable = f.view();
    f.durable.resize(data.size());
    f.pending.clear();
  }
}
// runs until the queue is empty or `until`
void pump(u64 until) {
  while (!V->q.empty() && V->q.top().t <= until && !W->viol.set) {
    Ev e = V->q.top();
    V->q.pop();
    if (e.t > W->now) { W->st.simtime_ms += e.t - W->now; W->now = e.t; }
    Node &n = V->nodes[e.node];
    if (e.boot == ~0ull) { node_boot(n); continue; }
    if (!n.up) { W->st.probes["event_while_down"]++; continue; }
    if (e.boot && e.boot != n.boots) continue;
    std::vector<Ev> g{e};
    // threads of one node working on several events at once
    while (W->plan->k("conc") > 1 && (long)g.size() < W->plan->k("conc") && !V->q.empty()) {
      const Ev &x = V->q.top();
      bool other = x.node == e.node && x.t <= e.t + 3 && x.boot != ~0ull && !x.boot;
      for (auto &y : g) other = other && y.item != x.item;
      if (!other) break;
      g.push_back(x);
      V->q.pop();
    }
    if (g.size() > 1) probe("threads_on_a_node");
    run_job(g);
    if (V->events > 4000) { fail("no-progress", "the world does not come to rest"); return; }
  }
}
bool is_ctl(const Item &i) { return i.kind == "crash" || i.kind == "midcrash" || i.kind == "part"; }
// Executes the plan: control items and the scenario's own items at their times.
struct Setup {
  int nodes;
  bool key;
  std::function<void(const Item &)> act;     // a client action, in a task of its node
  std::function<void()> finish;              // after all faults stopped (not in a task)
};
void run_world(const Setup &s, std::function<void(int, int, const Bytes &)> on_msg, std::function<void(int)> on_boot = nullptr) {
  Plan &pl = *W->plan;
  std::unique_ptr<World2> hold(new World2);
  V = hold.get();
  V->key = s.key;
  V->on_msg = on_msg;
  V->on_boot = on_boot;
  V->nodes.resize(s.nodes);
  Rng nr(hmix(pl.seed, 0x7e7));
  for (int i = 0; i < 3; i++) V->nets.push_back(std_net(i));
  for (int i = 0; i < 3; i++) V->nets.push_back(custom_net(nr));
  for (auto &i : pl.items) V->items[i.id] = &i;
  for (int i = 0; i < s.nodes; i++) {
    V->nodes[i].id = i;
    node_boot(V->nodes[i]);
    if (W->viol.set) return;
  }
  for (auto &it : pl.items) {
    const Item *i = &it;
    u64 t = (u64)i->epoch * 40 + i->seed % 37;
    int node = ((i->lane % s.nodes) + s.nodes) % s.nodes;
    if (i->kind == "crash") {
      post(node, t, i->id, [i, node] {
        W->st.fired["crash"]++;
        crash_disk(V->nodes[node]);
        kill_proc(cur->p, "down");
        post(node, 10 + (u64)i->size % 2000, 900100 + node, [] {}, ~0ull);
      });
    } else if (i->kind == "midcrash") {
      post(node, t, i->id, [i, node] { V->nodes[node].crash_arm = 1 + (u64)i->size; });
    } else if (i->kind == "part") {
      post(node, t, i->id, [i, node, s] {
        Rng r(i->seed);
        for (int a = 0; a < s.nodes; a++)
          if (a != node && r.below(3)) V->cut[{std::min(a, node), std::max(a, node)}] = W->now + (u64)i->size;
        W->st.fired["partition"]++;
      });
    } else {
      post(node, t, i->id, [i, s] {
        W->st.ops[i->kind]++;
        s.act(*i);
      });
    }
  }
  pump(~0ull);
  if (W->viol.set) return;
  // faults stop; every node comes up; what is unfinished must now finish
  V->calm = true;
  V->cut.clear();
  W->now += 10000;
  for (auto &n : V->nodes) {
    n.crash_arm = 0;
    if (!n.up) node_boot(n);
    if (W->viol.set) return;
  }
  if (s.finish) s.finish();
  pump(~0ull);
}

// ---------------------------------------------------------------- text damage
const char A58[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
const char A32[] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
Bytes damage_text(Bytes t, u64 q) {
  Rng r(q);
  if (t.empty()) return t;
  bool b32 = t.find_last_of('1') != Bytes::npos && t.find_first_of("A") == Bytes::npos && t.find_last_of('1') > 0;
  auto sub = [&](size_t i) {
    char o = t[i];
    do t[i] = b32 && r.below(2) ? A32[r.below(32)] : A58[r.below(58)];
    while (t[i] == o);
  };
  switch (r.below(18)) {
    case 16: case 17: t = strange_text(r, t); break;
    case 0: sub(r.below(t.size())); break;
    case 15: t = strange_sum(r, t); break;
    case 1: { int n = (int)r.range(2, 4); while (n--) sub(r.below(t.size())); break; }
    case 2: { size_t a = t.size() - 1 - r.below(std::min<size_t>(8, t.size())); sub(a); break; }
    case 3: t[r.below(t.size())] = (char)r.next(); break;
    case 4: t[r.below(t.size())] ^= (char)(1 << r.below(8)); break;
    case 5: { size_t a = r.below(t.size()); if (a + 1 < t.size()) std::swap(t[a], t[a + 1]); break; }
    case 6: t.erase(r.below(t.size()), 1 + r.below(3)); break;
    case 7: t.insert(r.below(t.size() + 1), 1 + r.below(2), b32 ? A32[r.below(32)] : A58[r.below(58)]); break;
    case 8: t.resize(r.below(t.size())); break;
    case 9: t += t.substr(r.below(t.size())); break;
    case 10: { size_t a = r.below(t.size()), n = 1 + r.below(6); for (size_t i = a; i < t.size() && i < a + n; i++) t[i] = (char)r.next(); break; }
    case 11: { size_t a = r.below(t.size()); t[a] = (char)(isupper((u8)t[a]) ? tolower((u8)t[a]) : toupper((u8)t[a])); break; }
    case 12: t = (r.below(2) ? " " : "1") + t + (r.below(2) ? "\n" : ""); break;
    default: {  // base58: damage that only some checksum bytes notice
      Bytes d;
      if (ref::b58dec(t, d) && d.size() > 8) {
        Bytes body = d.substr(0, d.size() - 4);
        if (r.below(3)) body[r.below(body.size())] ^= (char)(1 << r.below(8));
        Bytes sum = ref::hash256(body).substr(0, 4);
        int n = (int)r.range(1, 3);
        size_t at = r.below(4);
        for (int k = 0; k < n; k++) sum[(at + k) % 4] ^= (char)(1 + r.below(255));
        t = ref::b58enc(body + sum);
        probe("damage_near_checksum");
      } else if (t.size() > 14) {  // bech32: another payload's checksum with few symbols wrong
        Bytes h, s;
        if (ref::bech32dec(t, h, s) && s.size() > 2) {
          s[r.below(s.size())] ^= (char)(1 + r.below(31));
          t = ref::bech32enc(h, s);
          size_t a = t.size() - 1 - r.below(6);
          char o = t[a];
          do t[a] = A32[r.below(32)]; while (t[a] == o);
          if (r.below(3) == 0) { size_t b = t.size() - 1 - r.below(6); if (b != a) t[b] = A32[r.below(32)]; }
          probe("damage_near_checksum");
        }
      }
    }
  }
  return t;
}
void net_knobs(Plan &p, Rng &r) {
  static const long v[] = {0, 30000, 100000, 300000};
  p.knob["r_net_drop"] = v[r.below(4)];
  p.knob["r_net_dup"] = v[r.below(4)];
  p.knob["r_net_delay"] = v[r.below(4)];
  p.knob["threads"] = r.below(4) != 0;
  p.knob["paint"] = (long)r.below(12);
  p.knob["r_errno_noise"] = r.below(2) ? 200000 : 0;
  if (r.below(2)) {
    p.knob["conc"] = (long)r.range(2, 3);
    static const long g[] = {20, 150, 1500, 9000};
    p.knob["gap"] = g[r.below(4)];
    p.knob["boost"] = r.below(2) ? 10 : 0;
  }
}
struct WGen {
  Plan &p;
  Rng &r;
  int id = 1;
  Item &add(int node, int time, const std::string &kind, long size) {
    Item i;
    i.id = id++;
    i.lane = node;
    i.epoch = time;
    i.kind = kind;
    i.seed = r.next() >> 1;
    i.size = size;
    p.items.push_back(i);
    return p.items.back();
  }
  void control(int nodes, int horizon, int max) {
    int n = (int)r.below(max + 1);
    for (int k = 0; k < n; k++) {
      int node = (int)r.below(nodes), t = (int)r.below(horizon + 1);
      switch (r.below(3)) {
        case 0: add(node, t, "crash", (long)r.range(5, 400)); break;
        case 1: add(node, t, "midcrash", (long)r.below(r.below(2) ? 300 : 20000)); break;
        default: add(node, t, "part", (long)r.range(20, 600));
      }
    }
  }
};
Bytes field(const Bytes &m, size_t &o) {
  if (o >= m.size()) return Bytes();
  size_t n = (u8)m[o] | (o + 1 < m.size() ? (u8)m[o + 1] << 8 : 0);
  o += 2;
  Bytes b = o < m.size() ? m.substr(o, n) : Bytes();
  o += n;
  return b;
}
Bytes pack(const std::vector<Bytes> &f) {
  Bytes m;
  for (auto &b : f) { m += (char)(b.size() & 255); m += (char)(b.size() >> 8); m += b; }
  return m;
}
std::vector<Bytes> unpack(const Bytes &m) {
  std::vector<Bytes> f;
  size_t o = 0;
  while (o < m.size()) f.push_back(field(m, o));
  return f;
}
Bytes num(u64 v) { return std::to_string(v); }
u64 val(const Bytes &b) { return strtoull(b.c_str(), nullptr, 10); }
struct Dest { ref::Kind kind; Bytes pay; int net; };
Dest dest_of(const Item &i) {
  Rng r(i.seed);
  Dest d;
  d.net = (int)r.below(6);
  d.kind = (ref::Kind)r.range(ref::PK, ref::WUNK);
  d.pay = d.kind <= ref::SCRIPT ? rand_payload(r, r.below(8) ? 20 : r.below(41)) : d.kind == ref::WKEY ? rand_payload(r, 20) : d.kind == ref::WSCRIPT ? rand_payload(r, 32)
          : Bytes(1, (char)r.range(1, 16)) + rand_payload(r, r.range(2, 40));
  return d;
}
}  // namespace

// ==================================================== C12: damaged addresses
// A payee sends its address through relays to a payer, who decodes it and sends
// back what it understood; unconfirmed requests are repeated.
void gen_c12(Plan &p, Rng &r) {
  int nodes = (int)r.range(2, 4);
  p.knob["nodes"] = nodes;
  net_knobs(p, r);
  static const long v[] = {200000, 500000, 800000};
  p.knob["r_corrupt"] = v[r.below(3)];
  WGen g{p, r};
  int n = (int)r.range(2, 7);
  for (int i = 0; i < n; i++) g.add((int)r.below(nodes), (int)r.below(10), "pay", (long)r.range(1, 3));
  g.control(nodes, 12, 2);
}
static void pay_try(const Item &i, int attempt);
static std::map<int, bool> paid;
static void pay_try(const Item &i, int attempt) {
  if (paid[i.id] || attempt > 6) return;
  Dest d = dest_of(i);
  Bytes want = ref::addr(d.kind, d.pay, V->nets[d.net].n);
  Bytes t = api::addr_enc(d.kind, d.pay, V->nets[d.net]);
  expect("address encoding", t, want);
  Rng r(i.seed ^ 0x77);
  if (d.kind >= ref::WKEY && r.below(4) == 0) for (auto &ch : t) ch = (char)toupper((u8)ch);
  int me = mynode(), to = (me + 1 + (int)r.below(V->nodes.size() - 1)) % (int)V->nodes.size();
  send(to, pack({"addr", num(i.id), num(me), num(i.size), t}), true);
  int id = i.id;
  const Item *pi = item_of(id);
  if (!V->calm) post(me, 400, id, [pi, attempt] { pay_try(*pi, attempt + 1); });
}
void run_c12() {
  paid.clear();
  damage = [](Bytes m, u64 q) {
    auto f = unpack(m);
    if (f.size() == 5 && f[0] == "addr") f[4] = damage_text(f[4], q);
    return pack(f);
  };
  Setup s;
  s.nodes = (int)W->plan->k("nodes", 2);
  s.key = false;
  s.act = [](const Item &i) { if (i.kind == "pay") pay_try(i, 0); };
  s.finish = [] {
    for (auto &i : W->plan->items) {
      if (is_ctl(i)) continue;
      paid[i.id] = false;
      const Item *pi = &i;
      post(i.lane % (int)V->nodes.size(), 0, i.id, [pi] { pay_try(*pi, 0); });
    }
  };
  run_world(s, [](int me, int from, const Bytes &m) {
    auto f = unpack(m);
    if (f.size() < 5) return;
    const Item &i = *item_of((int)val(f[1]));
    Dest d = dest_of(i);
    const Network &w = V->nets[d.net];
    if (f[0] == "addr") {
      u64 hops = val(f[3]);
      if (hops > 1) {  // a relay passes the text on
        int to = (me + 1) % (int)V->nodes.size();
        send(to, pack({"addr", f[1], f[2], num(hops - 1), f[4]}));
        return;
      }
      const Bytes &t = f[4];
      Bytes sent = ref::addr(d.kind, d.pay, w.n), up = sent, pay, rpay;
      for (auto &ch : up) ch = (char)toupper((u8)ch);
      bool intact = t == sent || (d.kind >= ref::WKEY && t == up);
      ref::Kind k = api::addr_dec(t, w, pay), rk = ref::addrdec(t, w.n, rpay);
      if (t.find('\0') != Bytes::npos && rk == ref::BAD && k == d.kind && pay == d.pay) k = ref::BAD;
      if (k != rk || (k && pay != rpay))
        fail("wrong-destination", fmt("address '%s' (sent as '%s') is taken as kind %d %s, right is kind %d %s", hexs(t, 100).c_str(), sent.c_str(), k,
                                      hexs(pay).c_str(), rk, hexs(rpay).c_str()));
      if (k && (k != d.kind || pay != d.pay)) probe("undetectable_damage");  // inherent in the text format
      if (intact) {
        if (!k) fail("lost-address", "an intact address is rejected: " + t);
        probe("intact_addresses");
      } else probe(k ? "damaged_but_same" : "damaged_rejected");
      if (k) {
        Bytes back = api::addr_enc(k, pay, w);
        send((int)val(f[2]), pack({"ack", f[1], num(me), num(0), back}), false);
      }
    } else if (f[0] == "ack") {
      if (f[4] == ref::addr(d.kind, d.pay, w.n)) paid[i.id] = true;
    }
  });
  if (W->viol.set) return;
  for (auto &i : W->plan->items)
    if (!is_ctl(i) && !paid[i.id]) fail("no-progress", "a payment is not understood although nothing fails any more");
}

// ============================================ C20: canonical texts, Byzantine peers
void gen_c20(Plan &p, Rng &r) {
  int nodes = (int)r.range(2, 4);
  p.knob["nodes"] = nodes;
  net_knobs(p, r);
  p.knob["r_corrupt"] = r.below(3) ? 0 : 200000;
  WGen g{p, r};
  int n = (int)r.range(3, 10);
  for (int i = 0; i < n; i++) g.add((int)r.below(nodes), (int)r.below(10), "forge", (long)r.below(100));
  g.control(nodes, 12, 1);
}
static Bytes conv8to5(const Bytes &b, u8 pad, bool extra) {
  Bytes o;
  u32 acc = 0;
  int bits = 0;
  for (char ch : b) {
    acc = acc << 8 | (u8)ch;
    bits += 8;
    while (bits >= 5) { bits -= 5; o += (char)((acc >> bits) & 31); }
  }
  if (bits) o += (char)(((acc << (5 - bits)) & 31) | (pad & ((1 << (5 - bits)) - 1)));
  if (extra) o += (char)0;
  return o;
}
static Bytes forge(Rng &r, const Dest &d) {
  const ref::Net &n = V->nets[d.net].n;
  const ref::Net &x = V->nets[r.below(6)].n;  // another network (or the same)
  Bytes good = ref::addr(d.kind, d.pay, n);
  Bytes prog = d.kind == ref::WUNK ? d.pay.substr(1) : d.pay;
  u8 ver = d.kind == ref::WUNK ? (u8)d.pay[0] : 0;
  if (d.kind <= ref::SCRIPT) { prog = rand_payload(r, r.range(2, 40)); ver = (u8)r.below(17); }
  auto wit = [&](const Bytes &hrp, u8 v, const Bytes &sym) { return ref::bech32enc(hrp, Bytes(1, (char)v) + sym); };
  switch (r.below(30)) {
    case 26: case 27: case 28: case 29: return strange_text(r, good);
    case 0: return good;
    case 1: { Bytes t = good; for (auto &c : t) c = (char)toupper((u8)c); return t; }
    case 2: { Bytes t = good; for (auto &c : t) if (r.below(2)) c = (char)toupper((u8)c); return t; }
    case 3: return wit(n.hrp, ver, conv8to5(prog, (u8)(1 + r.below(15)), false));   // padding bits
    case 4: return wit(n.hrp, ver, conv8to5(prog, 0, true));                        // padding symbol
    case 5: return wit(n.hrp, 0, conv8to5(r.bytes(r.range(0, 42)), 0, false));      // v0 of any length
    case 6: return wit(n.hrp, (u8)r.range(17, 31), conv8to5(prog, 0, false));       // version
    case 7: return wit(n.hrp, ver, conv8to5(r.bytes(r.below(2) ? r.below(3) : r.range(39, 44)), 0, false));
    case 8: return ref::addr(d.kind, d.pay, x);                                     // other network
    case 9: {  // hrp near ours
      Bytes h = n.hrp;
      switch (r.below(7)) {
        case 0: h += (char)('a' + r.below(26)); break;
        case 1: if (h.size() > 1) h.pop_back(); break;
        case 2: h = h.substr(1) + "c"; break;
        case 3: h = "1" + h; break;
        case 4: h = h + "1"; break;
        case 5: h = ""; break;
        default: h[r.below(h.size())] = (char)('a' + r.below(26));
      }
      return wit(h, ver, conv8to5(prog, 0, false));
    }
    case 10: { Bytes t = ref::bech32enc(n.hrp, Bytes(1, (char)ver) + conv8to5(prog, 0, false)); t[t.size() - 1 - r.below(6)] = A32[r.below(32)]; return t; }
    case 11: return strange_sum(r, r.below(3) ? good : wit(n.hrp, ver, conv8to5(prog, 0, false)));
    case 12: return "1" + good;
    case 13: { size_t k = good.find_first_not_of('1'); return k && k != Bytes::npos ? good.substr(1) : good; }
    case 14: { static const char ws[] = " \t\n\v\f\r"; Bytes t = good; for (int k = (int)r.below(3); k >= 0; k--) t = r.below(2) ? Bytes(1, ws[r.below(6)]) + t : t + ws[r.below(6)]; return t; }
    case 15: { Bytes t = good; t.insert(1 + r.below(t.size() - 1), 1, " \n\t"[r.below(3)]); return t; }
    case 16: return ref::b58check((r.below(2) ? n.pk : n.sc) + r.bytes(r.range(18, 23)));
    case 17: return ref::b58check(x.pk + d.pay);
    case 18: { Bytes pre = r.below(2) ? n.pk : n.sc; pre[pre.size() - 1] ^= (char)(1 << r.below(8)); return ref::b58check(pre + d.pay); }
    case 19: { Bytes pre = r.below(2) ? n.pk : n.sc; pre.pop_back(); return ref::b58check(pre + d.pay); }
    case 20: {  // checksum damaged in one byte
      Bytes body = (r.below(2) ? n.pk : n.sc) + rand_payload(r, 20), s = ref::hash256(body).substr(0, 4);
      s[r.below(4)] ^= (char)(1 << r.below(8));
      return ref::b58enc(body + s);
    }
    case 21: return ref::b58check(r.below(3) == 0 ? n.wif + r.bytes(32) : r.below(2) ? n.xpub + r.bytes(74) : n.pk);
    case 22: return wit(n.hrp, ver, conv8to5(prog, 0, false) + Bytes(r.below(3), 0));
    case 23: return n.hrp + "1" + Bytes(r.below(9), 'q');
    case 24: { Bytes h = n.hrp; for (auto &c : h) c = (char)toupper((u8)c); return h + good.substr(std::min(good.size(), h.size())); }
    default: return good + good.substr(r.below(good.size()));
  }
}
static bool share(const Bytes &a, const Bytes &b) { size_t k = std::min(a.size(), b.size()); return a.substr(0, k) == b.substr(0, k); }
static std::map<int, int> judged;
static void judge(const Bytes &t, int net) {
  const Network &w = V->nets[net];
  Bytes pay, rpay;
  ref::Kind k = api::addr_dec(t, w, pay), rk = ref::addrdec(t, w.n, rpay);
  if (t.find('\0') != Bytes::npos) return;
  if (k != rk || (k && pay != rpay))
    fail("not-canonical", fmt("text '%s' on network %d is taken as kind %d %s, right is kind %d %s", hexs(t, 120).c_str(), net, k, hexs(pay).c_str(), rk, hexs(rpay).c_str()));
  if (!k) { probe("forged_rejected"); return; }
  probe("accepted");
  Bytes back = api::addr_enc(k, pay, w), core = t;
  if (k <= ref::SCRIPT) {
    size_t a = core.find_first_not_of(" \t\n\v\f\r"), b = core.find_last_not_of(" \t\n\v\f\r");
    core = core.substr(a, b - a + 1);
  } else for (auto &c : core) c = (char)tolower((u8)c);
  if (back != core) fail("not-canonical", fmt("text '%s' is accepted, but its destination is written '%s'", t.c_str(), back.c_str()));
}
// A key text a peer makes: well formed, with a valid key, under the prefix of
// some network, or nearly.
static Bytes forge_key(Rng &r) {
  const ref::Net &n = V->nets[r.below(6)].n, &o = V->nets[r.below(6)].n;
  ref::XKey k;
  k.depth = (u8)r.below(256);
  k.fp = (u32)r.next();
  k.child = (u32)r.next();
  k.cc = r.bytes(32);
  do k.key = r.bytes(32); while (!ref::key_valid(k.key));
  Bytes pre[3] = {n.wif, n.xprv, n.xpub}, body;
  int role = (int)r.below(3);
  if (role == 0) {
    body = k.key;
    switch (r.below(6)) {
      case 0: case 1: break;
      case 2: body += (char)r.below(256); break;
      case 3: body += Bytes(2, 1); break;
      case 4: body = body.substr(0, 31) + (char)1; break;  // may be an uncompressed key
      default: body += (char)1;
    }
  } else {
    if (role == 2) {  // from a fixed set: they cost much
      static Bytes pubs[32];
      size_t i = r.below(32);
      if (pubs[i].empty()) pubs[i] = ref::pub_ser(ref::pub64(ref::sha256(Bytes(1, (char)i))), true);
      k.key = pubs[i];
    }
    body = ref::xser(k);
    if (r.below(8) == 0) { if (r.below(2)) body += (char)r.below(3); else body.pop_back(); }
  }
  Bytes p = pre[role];
  switch (r.below(9)) {
    case 0: p = (Bytes[]){o.wif, o.xprv, o.xpub, o.pk, o.sc}[r.below(5)]; break;
    case 1: p[r.below(p.size())] ^= (char)(1 << r.below(8)); break;
    case 2: p.back() = (char)(p.back() + 1); break;
    case 3: p[0] = (char)((u8)p[0] + 1 + r.below(40)); break;
    case 4: p += (char)(r.below(2) ? 0 : r.below(256)); break;
    case 5: p.pop_back(); break;
    default: break;
  }
  Bytes t = ref::b58check(p + body);
  return r.below(6) ? t : strange_text(r, t);
}
static void judge_key(const Bytes &t, int net) {
  const Network &w = V->nets[net];
  Bytes k, rk;
  int comp = 0, rcomp = 0;
  bool ok = api::wif_dec(t, w, k, comp), want = ref::wifdec(t, w.n, rk, rcomp);
  bool sound = !want || ref::key_valid(rk);  // refusing keys that are none would be right, too
  if (sound && (ok != want || (ok && (k != rk || comp != rcomp))))
    fail("wrong-network", fmt("key text '%s' on network %d is %s, right is %s", t.c_str(), net, ok ? hexs(k).c_str() : "rejected", want ? hexs(rk).c_str() : "rejected"));
  for (int priv = 0; priv < 2; priv++) {
    ref::XKey x, rx;
    Bytes p64;
    ok = api::x_dec(t, priv, w, x);
    want = ref::xstrdec(t, priv ? w.n.xprv : w.n.xpub, priv, rx);
    if (ok != want || (ok && ref::xser(x) != ref::xser(rx))) {
      if (want && (ref::xstr(rx, priv ? w.n.xprv : w.n.xpub) != t || (priv ? !ref::key_valid(rx.key) : !ref::pub_parse(rx.key, p64)))) continue;  // refusing keys that are none would be right, too
      fail("wrong-network", fmt("%s key text '%s' on network %d is %s", priv ? "private" : "public", t.c_str(), net, ok ? "accepted wrongly" : "rejected"));
    }
    if (ok) probe("key_texts_accepted");
  }
  probe("key_texts");
}
void run_c20() {
  judged.clear();
  damage = [](Bytes m, u64 q) {
    auto f = unpack(m);
    if (f.size() == 4) f[3] = damage_text(f[3], q);
    return pack(f);
  };
  Setup s;
  s.nodes = (int)W->plan->k("nodes", 2);
  s.key = false;
  s.act = [](const Item &i) {
    Dest d = dest_of(i);
    Rng r(i.seed ^ 0xf0e6);
    bool key = r.below(6) == 0;
    Bytes t = key ? forge_key(r) : forge(r, d);
    for (size_t k = 0; k < V->nodes.size(); k++)
      if ((int)k != mynode()) send((int)k, pack({key ? "key" : "text", num(i.id), num(d.net), t}));
  };
  s.finish = nullptr;
  run_world(s, [](int me, int from, const Bytes &m) {
    auto f = unpack(m);
    if (f.size() < 4) return;
    int net = (int)val(f[2]);
    if (f[0] == "key") {
      for (int x = 0; x < 6; x++) if (x == net || (me + x) % 3 == 0) judge_key(f[3], x);
      judged[(int)val(f[1])]++;
      return;
    }
    judge(f[3], net);
    // the same text on a network that shares no prefix with the one it was made for
    Dest d = dest_of(*item_of((int)val(f[1])));
    for (int x = 0; x < 6; x++) {
      if (x == net || (me + x) % 3) continue;
      const ref::Net &a = V->nets[net].n, &b = V->nets[x].n;
      judge(f[3], x);
      bool apart = !share(a.pk, b.pk) && !share(a.pk, b.sc) && !share(a.sc, b.pk) && !share(a.sc, b.sc) && a.hrp != b.hrp;
      if (apart && f[3] == ref::addr(d.kind, d.pay, a)) {
        Bytes pay;
        if (api::addr_dec(f[3], V->nets[x], pay) != ref::BAD) fail("wrong-network", fmt("text '%s' of network %d is accepted on network %d", f[3].c_str(), net, x));
        probe("foreign_network");
      }
    }
    judged[(int)val(f[1])]++;
  });
}

// ======================================================= C13: keys on a disk
// Items: store (format by seed) into one of a few files, load, crash, bit rot.
void gen_c13(Plan &p, Rng &r) {
  int nodes = (int)r.range(1, 2);
  p.knob["nodes"] = nodes;
  net_knobs(p, r);
  static const long v[] = {0, 100000, 400000};
  p.knob["r_lost_write"] = v[r.below(3)];
  p.knob["r_torn_write"] = v[r.below(3)];
  p.knob["r_split_write"] = v[r.below(3)];
  p.knob["r_sync_lost"] = v[r.below(3)] / 2;
  p.knob["r_bit_rot"] = v[r.below(3)];
  WGen g{p, r};
  int n = (int)r.range(3, 12);
  for (int i = 0; i < n; i++) {
    int node = (int)r.below(nodes), t = (int)r.below(16);
    static const char *k[] = {"store", "store", "store", "load", "crash", "midcrash"};
    const char *kind = k[r.below(6)];
    long size = !strcmp(kind, "crash") ? (long)r.range(5, 60) : !strcmp(kind, "midcrash") ? (long)r.below(20000) : (long)r.below(3);
    g.add(node, t, kind, size);
  }
  for (int i = 0; i < 2; i++) g.add((int)r.below(nodes), 17, "load", (long)r.below(3));
}
namespace {
enum Fmt { WIF, XPRV, XPUB, DER, RAWPRV, RAWPUB, FMTS };
struct Rec { Fmt fmt; int net; bool comp; ref::XKey x; Bytes text; };
Rec rec_of(const Item &i) {  // size: which file; each file has one format
  Rng r(i.seed);
  Rec k;
  k.net = (int)(hmix(W->plan->seed, (u64)i.size + 5) % 6);
  k.fmt = (Fmt)(hmix(W->plan->seed, (u64)i.size) % FMTS);
  k.comp = r.below(2);
  bool priv = k.fmt != XPUB && k.fmt != RAWPUB;
  k.x.depth = (u8)r.below(256);
  k.x.fp = (u32)r.next();
  k.x.child = (u32)r.next();
  k.x.cc = r.bytes(32);
  do {
    k.x.key = r.bytes(32);
    if (r.below(4) == 0) for (size_t z = 0, n = 1 + r.below(4); z < n; z++) k.x.key[z] = 0;
  } while (!ref::key_valid(k.x.key));
  if (!priv) k.x.key = ref::pub_ser(ref::pub64(k.x.key), true);
  const ref::Net &n = V->nets[k.net].n;
  switch (k.fmt) {
    case WIF: k.text = ref::wif(k.x.key, k.comp, n); break;
    case XPRV: k.text = ref::xstr(k.x, n.xprv); break;
    case XPUB: k.text = ref::xstr(k.x, n.xpub); break;
    case DER: k.text = ref::key_der(k.x.key, k.comp); break;
    default: k.text = ref::xser(k.x);
  }
  return k;
}
Bytes lib_text(const Rec &k) {
  const Network &w = V->nets[k.net];
  switch (k.fmt) {
    case WIF: return api::wif_enc(k.x.key, k.comp, w);
    case XPRV: return api::x_enc(k.x, true, w);
    case XPUB: return api::x_enc(k.x, false, w);
    case DER: return api::der_enc(k.x.key, k.comp);
    default: return api::x74_enc(k.x, k.fmt == RAWPRV);
  }
}
struct FileHist { std::vector<Rec> all; bool sure = false; };  // sure: the last one is durable and intact
std::map<std::pair<int, long>, FileHist> hist;
void load_file(Node &n, long file) {
  if (hist[{n.id, file}].all.empty()) return;
  std::string name = "f" + std::to_string(file);
  u64 q;
  {
  FileRec &f = n.disk[name];
  const FileHist &h = hist[{n.id, file}];
  if (fault("bit_rot", -1, &q) && !f.view().empty()) {
    Bytes t = f.view();
    if (q % 3 == 0 || h.all.back().fmt >= DER) t[(q >> 8) % t.size()] ^= (char)(1 << (q >> 3) % 8);
    else t = damage_text(t, q);
    f.pending.clear();
    f.durable = t;
    f.rotten = true;
  }
  }
  // as of now: other threads of the node may store while this one decodes
  const FileRec f = n.disk[name];
  const FileHist h = hist[{n.id, file}];
  const Bytes t = f.view();
  const Rec last = h.all.back();
  bool intact = t == last.text;
  const Network &w = V->nets[last.net];
  ref::XKey x;
  Bytes k, rk;
  int comp = 0, rcomp = 0;
  ref::XKey rx;
  bool ok = false, rok = false;
  Rec gotr = last;
  switch (last.fmt) {
    case WIF:
      ok = api::wif_dec(t, w, k, comp);
      rok = ref::wifdec(t, w.n, rk, rcomp);
      gotr.x.key = k;
      gotr.comp = comp != 0;
      break;
    case XPRV: case XPUB:
      ok = api::x_dec(t, last.fmt == XPRV, w, x);
      rok = ref::xstrdec(t, last.fmt == XPRV ? w.n.xprv : w.n.xpub, last.fmt == XPRV, rx);
      gotr.x = x;
      break;
    case DER:
      ok = api::der_dec(t, k);
      gotr.x.key = k;
      break;
    default:
      if (!intact) return;  // raw bytes carry no check
      x = api::x74_dec(t, last.fmt == RAWPRV);
      ok = rok = true;
      gotr.x = x;
  }
  if (intact) {
    if (!ok) fail("lost-key", "a completely stored key is not readable: " + hexs(t, 120));
    bool same = ref::xser(gotr.x) == ref::xser(last.x) || ((last.fmt == WIF || last.fmt == DER) && gotr.x.key == last.x.key);
    if (!same || (last.fmt == WIF && gotr.comp != last.comp)) fail("wrong-key", "a completely stored key is read back as another key: " + hexs(t, 120));
    probe("intact_reads");
    return;
  }
  if (h.sure && !f.rotten) fail("internal", "a synced record is not on the disk");
  if (last.fmt == DER) {
    // a record that lost its end is never accepted
    for (auto &r : h.all)
      if (t.size() < r.text.size() && r.text.compare(0, t.size(), t) == 0 && ok) {
        Bytes rest = r.text.substr(t.size());
        if (rest.find_first_not_of('\0') != Bytes::npos || true) fail("wrong-key", fmt("a DER record cut to %zu of %zu bytes is accepted", t.size(), r.text.size()));
      }
    Bytes wk;
    bool want = ref::key_der_import(t, wk);
    if (ok != want || (ok && wk != k)) fail("wrong-key", "a damaged DER record is read wrongly: " + hexs(t, 300));
    probe(ok ? "damaged_der_read" : "damaged_reported");
    return;
  }
  if (t.find('\0') != Bytes::npos && !rok) {
    // text cut by a NUL: some decoders stop there
    Bytes cut = t.substr(0, t.find('\0'));
    for (auto &r : h.all) if (r.text == cut) return;
  }
  if (!ok) { if (rok && std::any_of(h.all.begin(), h.all.end(), [&](const Rec &r) { return r.text == t; })) fail("lost-key", "a completely stored key is not readable: " + t); probe("damaged_reported"); return; }
  // accepted: it must be one of the keys that were stored in this file
  for (auto &r : h.all) {
    bool same = last.fmt == WIF ? r.x.key == gotr.x.key && r.comp == gotr.comp : ref::xser(r.x) == ref::xser(gotr.x);
    if (same) { probe("older_or_same_key"); return; }
  }
  if (!rok) fail("wrong-key", "a damaged record is accepted as a key nobody stored: " + hexs(t, 160));
  probe("undetectable_damage");
}
}  // namespace
void run_c13() {
  hist.clear();
  damage = nullptr;
  Setup s;
  s.nodes = (int)W->plan->k("nodes", 1);
  s.key = true;
  s.act = [](const Item &i) {
    Node &n = V->nodes[mynode()];
    if (i.kind == "load") { load_file(n, i.size); return; }
    if (i.kind != "store") return;
    Rec k = rec_of(i);
    Bytes t = lib_text(k);
    expect("stored text", t, k.text);
    auto &h = hist[{n.id, i.size}];
    h.all.push_back(k);
    Rng r(i.seed ^ 0x5a);
    std::string name = "f" + std::to_string(i.size);
    if (r.below(3) == 0) { n.disk[name].durable.clear(); n.disk[name].pending.clear(); }  // truncated first
    disk_write(n, name, t, r.below(3) != 0);
    h.sure = n.disk[name].durable == t && n.disk[name].pending.empty();
  };
  auto load_all = [](int node) {
    for (auto &h : hist)
      if (h.first.first == node) load_file(V->nodes[node], h.first.second);
  };
  s.finish = [load_all] {
    for (auto &n : V->nodes) { int id = n.id; post(id, 0, 900200 + id, [load_all, id] { load_all(id); }); }
  };
  run_world(s, nullptr, load_all);
}

// ================================================= C14: integers over streams
// A sender streams integers; the network cuts the byte stream anywhere, delays,
// loses and repeats pieces; the receiver decodes what it has after each piece,
// persists what it decoded and resumes from there after a crash. Hostile peers
// send arbitrary encodings.
void gen_c14(Plan &p, Rng &r) {
  int nodes = (int)r.range(2, 3);
  p.knob["nodes"] = nodes;
  net_knobs(p, r);
  p.knob["frag"] = (long)r.range(1, 12);
  WGen g{p, r};
  int n = (int)r.range(1, 3);
  for (int i = 0; i < n; i++) g.add((int)r.below(nodes), (int)r.below(6), "stream", (long)r.range(1, 25));
  for (int i = (int)r.below(3); i > 0; i--) g.add((int)r.below(nodes), (int)r.below(6), "hostile", (long)r.range(1, 40));
  g.control(nodes, 10, 2);
}
namespace {
struct Stream {
  bool sgn = false, hostile = false;
  int from = 0, to = 0;
  std::vector<u64> vals;
  Bytes bytes;
  // receiver: durable
  std::vector<u64> got;
  size_t done = 0;
  // receiver: volatile
  Bytes buf;
  u64 boot = 0;
  size_t acked = 0;
  bool reset = false;
};
std::map<int, Stream> streams;
u64 some_u64(Rng &r) {
  switch (r.below(6)) {
    case 0: return r.below(300);
    case 1: return ~0ull - r.below(300);
    case 2: return (1ull << r.below(64)) + r.below(5) - 2;
    case 3: { u64 b = 0; for (int k = (int)r.range(1, 9); k > 0; k--) b = (b + 1) << 7; return b + r.below(5) - 2; }
    default: return r.next() >> r.below(64);
  }
}
void drain(Stream &s) {
  for (int guard = 0; guard < 4000; guard++) {
    u64 before = s.sgn ? 0x1234567890abcdefull : 0xfedcba0987654321ull, v = before, rv = 0;
    int64_t rsv = 0;
    size_t n = api::int_dec(s.sgn, s.buf, v);
    size_t rn = s.sgn ? ref::zigzagdec(s.buf, rsv) : ref::varintdec(s.buf, rv);
    if (s.sgn) rv = (u64)rsv;
    if (n != rn || (n && v != rv))
      fail("wrong-integer", fmt("%zu pending bytes %s decode to %llu with %zu bytes used, right is %llu with %zu bytes", s.buf.size(), hexs(s.buf, 14).c_str(),
                                (unsigned long long)v, n, (unsigned long long)rv, rn));
    if (!n) {
      if (s.buf.size() >= 10) { s.reset = true; probe("overlong_rejected"); }
      else if (!s.buf.empty()) probe("incomplete");
      return;
    }
    Bytes back = api::int_enc(s.sgn, v);
    if (back != s.buf.substr(0, n)) fail("wrong-integer", fmt("encoding %s is accepted for a value that is encoded as %s", hexs(s.buf.substr(0, n)).c_str(), hexs(back).c_str()));
    s.got.push_back(v);
    s.done += n;
    s.buf.erase(0, n);
    if (!s.hostile) {
      size_t k = s.got.size() - 1;
      if (k >= s.vals.size() || s.vals[k] != v) fail("wrong-integer", fmt("integer %zu of the stream arrives as %llu", k, (unsigned long long)v));
    }
  }
}
void stream_send(int id, int attempt) {
  Stream &s = streams[id];
  if (s.acked >= s.bytes.size() || attempt > 25 || s.reset) return;
  Rng r(hmix(item_of(id)->seed, attempt));
  size_t o = s.acked;
  long frag = W->plan->k("frag", 4);
  int budget = 60;
  while (o < s.bytes.size() && budget--) {
    size_t k = 1 + r.below(frag);
    // pieces that overtake one another are dropped by the receiver
    if (V->calm || r.below(8) == 0) k = s.bytes.size();
    k = std::min(k, s.bytes.size() - o);
    send(s.to, pack({"data", num(id), num(o), s.bytes.substr(o, k)}));
    o += k;
  }
  post(s.from, V->calm ? 300 : 700, id, [id, attempt] { stream_send(id, attempt + 1); });
}
}  // namespace
void run_c14() {
  streams.clear();
  damage = nullptr;
  Setup su;
  su.nodes = (int)W->plan->k("nodes", 2);
  su.key = false;
  su.act = [](const Item &i) {
    if (streams.count(i.id)) return;
    Stream s;
    Rng r(i.seed);
    s.sgn = r.below(2);
    s.from = mynode();
    s.to = (s.from + 1 + (int)r.below(V->nodes.size() - 1)) % (int)V->nodes.size();
    s.hostile = i.kind == "hostile";
    if (s.hostile) {
      while ((long)s.bytes.size() < i.size) {
        switch (r.below(5)) {
          case 0: s.bytes += ref::varint(some_u64(r)); break;
          case 1: s.bytes += Bytes(r.below(12), (char)0x80) + (char)r.below(128); break;
          case 2: { Bytes b = r.bytes(9); for (auto &c : b) c |= (char)0x80; s.bytes += b + (char)r.below(4); break; }
          case 3: s.bytes += Bytes(r.range(8, 10), (char)0xff) + (char)r.below(3); break;
          default: s.bytes += r.bytes(1 + r.below(4));
        }
      }
      // just around the largest value
      if (r.below(3) == 0) { Bytes b = ref::varint(~0ull - r.below(3)); b[b.size() - 1 - r.below(3)] += (char)r.below(3); s.bytes = b + s.bytes; }
    } else {
      for (long k = 0; k < i.size; k++) {
        u64 v = some_u64(r);
        if (s.sgn && r.below(30) == 0) v = 1ull << 63;
        s.vals.push_back(v);
        Bytes e = api::int_enc(s.sgn, v), want = s.sgn ? ref::zigzag((int64_t)v) : ref::varint(v);
        expect("integer encoding", e, want);
        s.bytes += e;
      }
    }
    streams[i.id] = s;
    stream_send(i.id, 0);
  };
  su.finish = [] {
    for (auto &x : streams) {
      int id = x.first;
      post(x.second.from, 0, id, [id] { stream_send(id, 0); });
    }
  };
  run_world(su, [](int me, int from, const Bytes &m) {
    auto f = unpack(m);
    if (f.size() < 3) return;
    int id = (int)val(f[1]);
    Stream &s = streams[id];
    if (f[0] == "ack") { s.acked = std::max(s.acked, (size_t)val(f[2])); return; }
    if (f.size() < 4 || me != s.to) return;
    if (s.boot != V->nodes[me].boots) { s.boot = V->nodes[me].boots; s.buf.clear(); probe("resumed"); }
    size_t off = (size_t)val(f[2]), have = s.done + s.buf.size();
    if (off > have || off + f[3].size() <= have || s.reset) {
      send(from, pack({"ack", f[1], num(s.done)}));
      return;
    }
    s.buf += f[3].substr(have - off);
    drain(s);
    // what is not decoded yet is lost in a crash: acknowledge decoded bytes only
    send(from, pack({"ack", f[1], num(s.done)}));
  });
  if (W->viol.set) return;
  for (auto &x : streams) {
    Stream &s = x.second;
    if (!s.hostile && s.got.size() != s.vals.size())
      fail("no-progress", fmt("%zu of %zu integers arrive although nothing fails any more", s.got.size(), s.vals.size()));
  }
}

// ====================================== C15: signers and watch-only wallets
// Each account: signers know the extended private key, watchers the public one.
// Items: derive a path, on a signer or a watcher, in any order; results are sent
// to a peer of the other kind, which derives the same path itself and compares.
void gen_c15(Plan &p, Rng &r) {
  int nodes = (int)r.range(2, 4);
  p.knob["nodes"] = nodes;
  p.knob["accounts"] = (long)r.range(1, 3);
  net_knobs(p, r);
  WGen g{p, r};
  int n = (int)r.range(2, 7);
  for (int i = 0; i < n; i++) g.add((int)r.below(nodes), (int)r.below(12), r.below(6) ? "path" : "refuse", (long)r.range(1, 4));
  g.control(nodes, 12, 2);
}
namespace {
ref::XKey account(int a) {
  Rng r(hmix(W->plan->seed, 0xacc + a));
  ref::XKey x = ref::master(r.bytes(16 + r.below(49)));
  // some accounts are near the deepest level
  int h = (int)r.below(3);
  for (int i = 0; i < h; i++) { ref::XKey y; if (ref::ckd_priv(x, 0x80000000u | (u32)r.next(), ref::fingerprint(ref::neuter(x).key), y)) x = y; }
  if (r.below(4) == 0) x.depth = (u8)(250 + r.below(6));
  // some differ from the first account in one part only
  if (a > 0 && r.below(2)) {
    ref::XKey first = account(0);
    switch (r.below(4)) {
      case 0: case 1: x.key = first.key; break;
      case 2: x.cc = first.cc; break;
      default: x.key = first.key; x.cc = first.cc; x.cc[r.below(32)] ^= (char)(1 << r.below(8));
    }
  }
  return x;
}
Network &acc_net(int a) { return V->nets[hmix(W->plan->seed, a + 77) % 6]; }
// an extended key as this node has it: over the wire or from its disk, as text or bytes
ref::XKey through(const ref::XKey &x, bool priv, int a, Rng &r) {
  ref::XKey y;
  if (r.below(2)) {
    Bytes t = api::x_enc(x, priv, acc_net(a));
    expect("extended key text", t, ref::xstr(x, priv ? acc_net(a).n.xprv : acc_net(a).n.xpub));
    if (!api::x_dec(t, priv, acc_net(a), y)) fail("wrong-key", "an extended key text is not read back: " + t);
  } else {
    Bytes b = api::x74_enc(x, priv);
    y = api::x74_dec(b, priv);
  }
  expect("extended key after serialisation", ref::xser(y), ref::xser(x));
  return y;
}
u32 some_child(Rng &r) {
  switch (r.below(6)) {
    case 5: return (u32)hmix(W->plan->seed, 0xc41d + r.below(2)) & 0x7fffffffu;  // common to this world
    case 0: return (u32)r.below(3);
    case 1: return 0x7fffffffu - (u32)r.below(3);
    case 2: return 1u << r.below(31);
    default: return (u32)r.next() & 0x7fffffffu;
  }
}
// derives `path` below the account on this node. Intermediate keys are kept in
// memory and on the disk, so that any prefix may come from there.
ref::XKey derive_path(int a, bool priv, const std::vector<u32> &path, Rng &r, bool &refused) {
  Node &n = V->nodes[mynode()];
  ref::XKey x = account(a), want = x;
  if (!priv) { x = r.below(2) ? api::neuter(x) : ref::neuter(x); want = ref::neuter(want); }
  expect("account key", ref::xser(x), ref::xser(want));
  x = through(x, priv, a, r);
  refused = false;
  std::string name = fmt("%s%d", priv ? "prv" : "pub", a);
  for (u32 c : path) {
    u32 fp = priv ? 0 : api::fingerprint(x.key);
    if (priv) fp = api::fingerprint(api::neuter(x).key);
    expect_n("fingerprint", fp, ref::fingerprint(priv ? ref::neuter(x).key : x.key));
    name += fmt("/%u", c);
    ref::XKey y, w;
    bool okw = priv ? ref::ckd_priv(want, c, fp, w) : ref::ckd_pub(want, c, fp, w);
    if (x.depth == 255) okw = false;
    bool ok;
    // copies: other threads of this node write these too
    Bytes onmem = n.mem.count(name) ? n.mem[name] : Bytes(), ondisk = n.disk.count(name) ? n.disk[name].view() : Bytes();
    if (okw && !onmem.empty() && r.below(2)) { y = api::x74_dec(onmem, priv); ok = true; probe("key_from_memory"); }
    else if (okw && !ondisk.empty() && r.below(2)) { ok = api::x_dec(ondisk, priv, acc_net(a), y); probe("key_from_disk"); }
    else ok = priv ? api::ckd_priv(x, c, fp, y) : api::ckd_pub(x, c, fp, y);
    if (ok != okw) fail("wrong-key", fmt("%s derivation of child %08x below depth %d is %s", priv ? "private" : "public", c, x.depth, ok ? "not refused" : "refused"));
    if (!ok) { refused = true; probe("refused"); return x; }
    expect(priv ? "derived private key" : "derived public key", ref::xser(y), ref::xser(w));
    if (r.below(4) == 0) {  // a relative: the same derivation with one argument changed
      ref::XKey s = x, sy, sw;
      u32 sc = c, sfp = fp;
      switch (r.below(5)) {
        case 0: case 1: s.cc[r.below(32)] ^= (char)(1 << r.below(8)); break;
        case 2: { ref::XKey o = account(a + 1); s.key = priv ? o.key : ref::neuter(o).key; break; }
        case 3: sc ^= 1u << r.below(priv ? 32 : 31); break;
        default: sfp ^= 1u << r.below(32); s.depth = (u8)(s.depth ^ 1);
      }
      bool okr = s.depth != 255 && (priv ? ref::ckd_priv(s, sc, sfp, sw) : ref::ckd_pub(s, sc, sfp, sw));
      bool oks = priv ? api::ckd_priv(s, sc, sfp, sy) : api::ckd_pub(s, sc, sfp, sy);
      if (oks != okr) fail("wrong-key", fmt("%s derivation of child %08x below depth %d is %s", priv ? "private" : "public", sc, s.depth, oks ? "not refused" : "refused"));
      if (oks) expect("derived key of a relative", ref::xser(sy), ref::xser(sw));
      probe("relative_derived");
    }
    if (r.below(3) == 0) { Bytes b = api::x74_enc(y, priv); n.mem[name] = b; }
    if (r.below(3) == 0) { Bytes t = api::x_enc(y, priv, acc_net(a)); FileRec &f = n.disk[name]; f.durable = t; f.pending.clear(); }
    x = y;
    want = w;
  }
  return x;
}
std::map<int, int> agreed;
void path_try(const Item &i, int attempt) {
  if (agreed[i.id] || attempt > 4) return;
  Rng r(hmix(i.seed, attempt));
  Rng fixed(i.seed);
  int a = (int)fixed.below(W->plan->k("accounts", 1));
  std::vector<u32> path;
  for (long k = 0; k < i.size; k++) path.push_back(some_child(fixed));
  bool priv = fixed.below(2), refused;
  ref::XKey x = derive_path(a, priv, path, r, refused);
  ref::XKey pub = refused ? ref::XKey() : priv ? api::neuter(x) : x;
  int me = mynode(), to = (me + 1 + (int)fixed.below(V->nodes.size() - 1)) % (int)V->nodes.size();
  Bytes wire = refused ? Bytes("refused") : through(pub, false, a, r).key.empty() ? Bytes() : api::x_enc(pub, false, acc_net(a));
  Bytes ps;
  for (u32 c : path) ps += num(c) + ",";
  send(to, pack({"derived", num(i.id), num(a), num(priv), ps, wire}));
  const Item *pi = &i;
  post(me, 500, i.id, [pi, attempt] { path_try(*pi, attempt + 1); });
}
}  // namespace
void run_c15() {
  agreed.clear();
  damage = nullptr;
  Setup s;
  s.nodes = (int)W->plan->k("nodes", 2);
  s.key = true;
  s.act = [](const Item &i) {
    if (i.kind == "path") { path_try(i, 0); return; }
    if (i.kind != "refuse") return;
    Rng r(i.seed);
    int a = (int)r.below(W->plan->k("accounts", 1));
    ref::XKey x = account(a), y;
    u32 c = 0x80000000u | (u32)r.next();
    switch (r.below(6)) { case 0: c = 0x80000000u + (u32)r.below(3); break; case 1: c = 0xffffffffu - (u32)r.below(3); break; case 2: c = 0x80000000u | 1u << r.below(31); }
    u32 fp = (u32)r.next();
    ref::XKey pub = ref::neuter(x);
    if (api::ckd_pub(pub, c, fp, y)) fail("wrong-key", fmt("a hardened child (%08x) is derived from a public key", c));
    Bytes o, oc;
    if (api::derive_pub(pub.key, pub.cc, c, o, oc)) fail("wrong-key", fmt("a hardened child (%08x) is derived from a public key", c));
    x.depth = 255;
    pub.depth = 255;
    u32 c2 = r.below(2) ? c : c & 0x7fffffff;
    if (api::ckd_priv(x, c2, fp, y)) fail("wrong-key", "a private key is derived below depth 255");
    if (api::ckd_pub(pub, c2 & 0x7fffffff, fp, y)) fail("wrong-key", "a public key is derived below depth 255");
    x.depth = 254;
    ref::XKey w;
    bool okw = ref::ckd_priv(x, c2, fp, w);
    if (api::ckd_priv(x, c2, fp, y) != okw) fail("wrong-key", "derivation at depth 254 is refused");
    if (okw) expect("key at depth 255", ref::xser(y), ref::xser(w));
    // no other key where it cannot exist: a point that is not on the curve
    Bytes bad = pub.key;
    for (int k = 0; k < 20; k++) { Bytes p; bad = Bytes(1, (char)(2 + r.below(2))) + r.bytes(32); if (!ref::pub_parse(bad, p)) break; bad = ""; }
    if (!bad.empty()) {
      ref::XKey b = pub;
      b.depth = 1;
      b.key = bad;
      if (api::ckd_pub(b, c & 0x7fffffff, fp, y)) fail("wrong-key", "a child is derived from bytes that are no public key");
    }
    probe("refusals");
  };
  s.finish = [] {
    for (auto &i : W->plan->items)
      if (i.kind == "path") {
        agreed[i.id] = 0;
        const Item *pi = &i;
        post(i.lane % (int)V->nodes.size(), 0, i.id, [pi] { path_try(*pi, 0); });
      }
  };
  run_world(s, [](int me, int from, const Bytes &m) {
    auto f = unpack(m);
    if (f.size() < 2) return;
    int id = (int)val(f[1]);
    if (f[0] == "same") { agreed[id] = 1; return; }
    if (f.size() < 6) return;
    int a = (int)val(f[2]);
    bool priv = !val(f[3]), refused;
    std::vector<u32> path;
    const char *c = f[4].c_str();
    while (*c) { char *e; path.push_back((u32)strtoul(c, &e, 10)); c = *e == ',' ? e + 1 : e; }
    Rng r(hmix(item_of(id)->seed, 0xbb + cur->ord["api"]));
    ref::XKey x = derive_path(a, priv, path, r, refused);
    if (refused != (f[5] == "refused")) fail("wrong-key", "one side refuses a derivation, the other does not");
    if (!refused) {
      ref::XKey pub = priv ? api::neuter(x) : x, theirs;
      if (!api::x_dec(f[5], false, acc_net(a), theirs)) fail("wrong-key", "an extended public key text is not read back: " + f[5]);
      expect("public key derived by the other side", ref::xser(theirs), ref::xser(pub));
      probe("wallets_agree");
    }
    send(from, pack({"same", f[1]}));
  });
  if (W->viol.set) return;
  for (auto &i : W->plan->items)
    if (i.kind == "path" && !agreed[i.id]) fail("no-progress", "two wallets do not agree although nothing fails any more");
}

// ============================================================ C16: signatures
void gen_c16(Plan &p, Rng &r) {
  int nodes = (int)r.range(2, 4);
  p.knob["nodes"] = nodes;
  net_knobs(p, r);
  static const long v[] = {0, 200000, 600000};
  p.knob["r_corrupt"] = v[r.below(3)];
  WGen g{p, r};
  int n = (int)r.range(2, 6);
  for (int i = 0; i < n; i++) g.add((int)r.below(nodes), (int)r.below(12), "sign", (long)r.below(4));
  g.control(nodes, 12, 2);
}
namespace {
std::map<int, int> accepted;
std::map<std::pair<Bytes, Bytes>, Bytes> signatures;  // (key, hash) -> DER, over all nodes and times
void key_hash(const Item &i, Bytes &k, Bytes &h) {
  // few keys and hashes, so that several nodes sign the same thing
  Rng rk(hmix(W->plan->seed, 0x5160 + i.seed % 3)), rh(hmix(W->plan->seed, 0x9a5 + i.seed / 7 % 3));
  do {
    k = rk.bytes(32);
    if (rk.below(4) == 0) k = Bytes(24, 0) + rk.bytes(8);
  } while (!ref::key_valid(k));
  h = rh.below(5) ? rh.bytes(32) : rand_payload(rh, 32);
}
void sign_try(const Item &i, int attempt) {
  if (accepted[i.id] || attempt > 4) return;
  Bytes k, h;
  key_hash(i, k, h);
  Bytes s = api::sign(k, h), der = api::sig_enc(s);
  auto &known = signatures[{k, h}];
  if (known.empty()) known = der;
  if (known != der) fail("not-reproducible", "the same key and hash give two signatures: " + hexs(known, 80) + " and " + hexs(der, 80));
  expect("signature", der, ref::sig_der(ref::sign(k, h)));
  if (der.size() > 71) fail("wrong-result", "a signature is longer than 71 bytes");
  Bytes p = api::get_pub(k);
  bool comp = i.seed & 1;
  Bytes pe = api::pub_enc(p, comp);
  expect("public key", pe, ref::pub_ser(ref::pub64(k), comp));
  int me = mynode();
  for (int to = 0; to < (int)V->nodes.size(); to++)
    if (to != me) send(to, pack({"sig", num(i.id), num(me), pe, h, der}));
  const Item *pi = &i;
  post(me, 500, i.id, [pi, attempt] { sign_try(*pi, attempt + 1); });
}
}  // namespace
void run_c16() {
  accepted.clear();
  signatures.clear();
  damage = [](Bytes m, u64 q) {
    auto f = unpack(m);
    if (f.size() != 6) return m;
    Rng r(q);
    Bytes &b = f[3 + r.below(3)];
    if (&b == &f[5] && r.below(2)) {  // another signature value, well encoded
      Bytes s;
      if (ref::sig_lax(b, s)) {
        Bytes c = ref::sig_compact(s);
        switch (r.below(4)) {
          case 0: std::swap_ranges(c.begin(), c.begin() + 32, c.begin() + 32); break;
          case 1: for (int i = 0; i < 32; i++) c[i + (r.below(2) ? 32 : 0)] = 0; break;
          default: c[r.below(64)] ^= (char)(1 << r.below(8));
        }
        Bytes n = ref::sig_from_compact(c);
        if (n.size() == 64) b = ref::sig_der(n);
      }
    } else switch (r.below(4)) {
      case 0: b[r.below(b.size())] ^= (char)(1 << r.below(8)); break;
      case 1: b[r.below(b.size())] = (char)r.next(); break;
      case 2: b.resize(r.below(b.size() + 1)); if (&b == &f[4]) b.resize(32, '\0'); break;
      default: b += r.bytes(1 + r.below(3)); if (&b == &f[4]) b = b.substr(b.size() - 32);
    }
    return pack(f);
  };
  Setup s;
  s.nodes = (int)W->plan->k("nodes", 2);
  s.key = true;
  s.act = [](const Item &i) { if (i.kind == "sign") sign_try(i, 0); };
  s.finish = [] {
    for (auto &i : W->plan->items)
      if (i.kind == "sign") {
        accepted[i.id] = 0;
        const Item *pi = &i;
        post(i.lane % (int)V->nodes.size(), 0, i.id, [pi] { sign_try(*pi, 0); });
      }
  };
  run_world(s, [](int me, int from, const Bytes &m) {
    auto f = unpack(m);
    if (f.size() < 2) return;
    int id = (int)val(f[1]);
    if (f[0] == "ok") { accepted[id] = 1; return; }
    if (f.size() < 6) return;
    const Item &i = *item_of(id);
    Bytes k, h;
    key_hash(i, k, h);
    bool comp = i.seed & 1;
    bool intact = f[3] == ref::pub_ser(ref::pub64(k), comp) && f[4] == h && f[5] == ref::sig_der(ref::sign(k, h));
    Bytes p, rp, sg, rs;
    bool okp = false, okrp = false;
    if (f[3].size() == 33 || f[3].size() == 65) {
      okp = api::pub_dec(f[3], p);
      okrp = ref::pub_parse(f[3], rp);
      if (okp != okrp) fail("wrong-result", fmt("public key %s is %s", hexs(f[3], 70).c_str(), okp ? "accepted" : "refused"));
    }
    bool oks = api::sig_dec(f[5], sg), okrs = ref::sig_lax(f[5], rs);
    if (oks != okrs) fail("wrong-result", fmt("DER signature %s is %s", hexs(f[5], 80).c_str(), oks ? "accepted" : "refused"));
    bool v = false;
    if (okp && oks) {
      v = api::verify(p, f[4], sg);
      bool rv = ref::verify(rp, f[4], rs);
      if (v != rv) fail(v ? "forged-accepted" : "lost-signature", fmt("verification gives %d, right is %d: key %s hash %s signature %s", v, rv, hexs(f[3], 70).c_str(), hexs(f[4]).c_str(), hexs(f[5], 80).c_str()));
    }
    bool same_value = okrp && okrs && f[4] == h && rp == ref::pub64(k) && ref::sig_compact(rs) == ref::sig_compact(ref::sign(k, h));
    if (intact && !v) fail("lost-signature", "an intact signature does not verify");
    if (v && !same_value && ref::sig_compact(rs).substr(0, 32) != ref::sig_compact(ref::sign(k, h)).substr(0, 32))
      fail("forged-accepted", "an altered message verifies");
    probe(intact ? "intact_verified" : v ? "damaged_same_value" : "damaged_rejected");
    if (v) send(from, pack({"ok", f[1]}), false);
  });
  if (W->viol.set) return;
  for (auto &i : W->plan->items)
    if (i.kind == "sign" && !accepted[i.id]) fail("no-progress", "a signature is not accepted although nothing fails any more");
}
