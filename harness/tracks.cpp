// C09: tracks and track sets against plain maps
#include "vital_common.hpp"
#include <vital/types/track.h>
#include <vital/types/track_set.h>
#include <algorithm>
#include <memory>
using namespace kwiver::vital;
using pbt::Src;
PBT_INIT() { quiet_all(); }

namespace {
typedef std::pair<feature_sptr, descriptor_sptr> FD;
struct MTrack { track_id_t id; std::map<frame_id_t, FD> st; };
struct T { track_sptr t; MTrack m; };

feature_sptr mkf(Src& s) { return s.chance(1, 6) ? feature_sptr() : feature_sptr(new feature_d(vector_2d(s.range(0, 9), s.range(0, 9)))); }
descriptor_sptr mkd(Src& s) { return s.chance(1, 3) ? descriptor_sptr() : descriptor_sptr(new descriptor_fixed<float, 2>()); }

frame_id_t gen_frame(Src& s) { return s.chance(1, 12) ? frame_id_t(s.range(0, 4)) * 1000000000LL : s.range(0, 12); }

void check(T const& x)
{
  track const& t = *x.t; MTrack const& m = x.m;
  REQUIRE_EQ(t.id(), m.id, "track id"); REQUIRE_EQ(t.size(), m.st.size(), "number of states"); REQUIRE_EQ(t.empty(), m.st.empty(), "empty");
  REQUIRE_EQ(t.first_frame(), (m.st.empty() ? 0 : m.st.begin()->first), "first frame"); REQUIRE_EQ(t.last_frame(), (m.st.empty() ? 0 : m.st.rbegin()->first), "last frame");
  auto it = t.begin(); std::set<frame_id_t> fr;
  for (auto const& e : m.st)
  {
    REQUIRE(it != t.end(), "history too short"); fr.insert(e.first);
    REQUIRE(it->frame_id == e.first && it->feat == e.second.first && it->desc == e.second.second, "state of frame " << e.first);
    auto f = t.find(e.first); REQUIRE(f == it, "find(" << e.first << ")");
    if (!m.st.count(e.first + 1)) REQUIRE(t.find(e.first + 1) == t.end(), "find of frame " << e.first + 1);
    if (!m.st.count(e.first - 1)) REQUIRE(t.find(e.first - 1) == t.end(), "find of frame " << e.first - 1);
    ++it;
  }
  REQUIRE(it == t.end(), "history too long");
  REQUIRE(t.all_frame_ids() == fr, "frame ids");
  if (m.st.empty()) REQUIRE(t.find(0) == t.end() && t.find(-1) == t.end() && t.find(3) == t.end(), "find in an empty track");
}
}

PBT_PROP(track_model, 60000, 6000000, "a refused append and a track append of at least one state")
{
  std::vector<T> v; size_t n = 0; bool refused = false, joined = false;
  while (s.more(n, 12, 60))
  {
    size_t op = v.empty() ? 0 : s.weighted({2, 8, 3, 1, 1});
    if (op == 0)
    {
      T x; x.m.id = 0;
      if (s.flip()) { frame_id_t f = gen_frame(s); FD d(mkf(s), mkd(s)); x.t.reset(new track(track::track_state(f, d.first, d.second))); x.m.st[f] = d; }
      else x.t.reset(new track());
      v.push_back(x); s.note() << "new track " << v.size() - 1 << " states " << x.m.st.size() << "\n";
    }
    else if (op == 1)
    {
      T& x = v[s.idx(v.size())]; frame_id_t last = x.m.st.empty() ? 0 : x.m.st.rbegin()->first;
      frame_id_t f = s.chance(2, 3) ? last + s.range(-1, 3) : gen_frame(s); if (f < 0) f = 0;
      FD d(mkf(s), mkd(s)); bool ok = x.m.st.empty() || f > last;
      s.note() << "append frame " << f << " to " << (&x - &v[0]) << "\n";
      REQUIRE_EQ(x.t->append(track::track_state(f, d.first, d.second)), ok, "append of frame " << f << " after " << last);
      if (ok) x.m.st[f] = d; else refused = true;
    }
    else if (op == 2)
    {
      T& x = v[s.idx(v.size())]; T const& y = v[s.idx(v.size())];
      bool ok = x.m.st.empty() || y.m.st.empty() || y.m.st.begin()->first > x.m.st.rbegin()->first;
      s.note() << "append track " << (&y - &v[0]) << " to " << (&x - &v[0]) << "\n";
      if (&x == &y && x.m.st.empty()) continue;
      REQUIRE_EQ(x.t->append(*y.t), ok, "append of a track");
      if (ok) { if (!y.m.st.empty()) joined = true; auto c = y.m.st; x.m.st.insert(c.begin(), c.end()); } else refused = true;
    }
    else if (op == 3) { T& x = v[s.idx(v.size())]; x.m.id = s.integer(0, 1000000); x.t->set_id(x.m.id); }
    else { T const& y = v[s.idx(v.size())]; T x; x.t.reset(new track(*y.t)); x.m = y.m; v.push_back(x); }
    for (auto const& x : v) check(x);
  }
  if (refused && joined) s.nontrivial();
}

PBT_PROP(track_set_model, 60000, 6000000, "at least three tracks on different frames, one of them with a gap or empty")
{
  std::vector<T> v; std::vector<track_sptr> ts; size_t n = 0; bool odd = false; std::set<frame_id_t> firsts;
  frame_id_t base = s.chance(1, 3) ? 0 : s.range(0, 9);
  while (s.more(n, 5, 20))
  {
    T x; x.t.reset(new track()); x.m.id = s.chance(1, 8) ? s.range(0, 3) : frame_id_t(n); x.t->set_id(x.m.id);
    size_t k = 0; frame_id_t f = base + (s.chance(1, 4) ? gen_frame(s) : s.range(0, 6)) - 1; frame_id_t last = f;
    while (s.more(k, 3, 10)) { last = f; f += s.chance(1, 4) ? s.range(2, 4) : 1; if (k > 1 && f - last > 1) odd = true; FD d(mkf(s), mkd(s)); REQUIRE(x.t->append(track::track_state(f, d.first, d.second)), "append"); x.m.st[f] = d; }
    if (x.m.st.empty()) odd = true; else firsts.insert(x.m.st.begin()->first);
    s.note() << "track " << n - 1 << " id " << x.m.id << " frames"; for (auto const& e : x.m.st) s.note() << " " << e.first; s.note() << "\n";
    v.push_back(x); ts.push_back(x.t);
  }
  if (v.size() >= 3 && firsts.size() >= 2 && odd) s.nontrivial();
  simple_track_set set(ts);
  REQUIRE_EQ(set.size(), v.size(), "size"); REQUIRE_EQ(set.empty(), v.empty(), "empty"); REQUIRE(set.tracks() == ts, "tracks");
  std::set<frame_id_t> frames; std::set<track_id_t> ids;
  for (auto const& x : v) { for (auto const& e : x.m.st) frames.insert(e.first); ids.insert(x.m.id); }
  REQUIRE(set.all_frame_ids() == frames, "all frame ids"); REQUIRE(set.all_track_ids() == ids, "all track ids");
  frame_id_t first = frames.empty() ? 0 : *frames.begin(), last = frames.empty() ? 0 : *frames.rbegin();
  REQUIRE_EQ(set.first_frame(), first, "first (smallest) frame containing tracks"); REQUIRE_EQ(set.last_frame(), last, "last (largest) frame containing tracks");
  for (track_id_t id = -1; id < track_id_t(v.size()) + 2; ++id)
  {
    track_sptr t = set.get_track(id); if (ids.count(id)) REQUIRE(t && t->id() == id && std::find(ts.begin(), ts.end(), t) != ts.end(), "get_track(" << id << ")"); else REQUIRE(!t, "get_track of a missing id");
  }
  auto norm = [](std::vector<track_sptr> a) { std::sort(a.begin(), a.end()); return a; };
  std::set<frame_id_t> offs; for (frame_id_t f : frames) { offs.insert(f); offs.insert(f + 1); } offs.insert(0);
  for (frame_id_t o = -1; o >= -14; --o) offs.insert(o);
  for (frame_id_t o : offs)
  {
    frame_id_t f = o >= 0 ? o : last + 1 + o;
    std::vector<track_sptr> act, inact, neu, term; std::vector<feature_sptr> fe; std::vector<descriptor_sptr> de;
    for (auto const& x : v)
    {
      auto i = x.m.st.find(f);
      if (i != x.m.st.end()) { act.push_back(x.t); fe.push_back(i->second.first); de.push_back(i->second.second); } else inact.push_back(x.t);
      if (!x.m.st.empty() && x.m.st.begin()->first == f) neu.push_back(x.t);
      if (!x.m.st.empty() && x.m.st.rbegin()->first == f) term.push_back(x.t);
    }
    REQUIRE(norm(set.active_tracks(o)->tracks()) == norm(act), "active tracks at offset " << o);
    REQUIRE(norm(set.inactive_tracks(o)->tracks()) == norm(inact), "inactive tracks at offset " << o);
    REQUIRE(norm(set.new_tracks(o)->tracks()) == norm(neu), "new tracks at offset " << o);
    REQUIRE(norm(set.terminated_tracks(o)->tracks()) == norm(term), "terminated tracks at offset " << o);
    auto gf = set.frame_features(o)->features(); auto gd = set.frame_descriptors(o)->descriptors();
    std::sort(gf.begin(), gf.end()); std::sort(fe.begin(), fe.end()); std::sort(gd.begin(), gd.end()); std::sort(de.begin(), de.end());
    REQUIRE(gf == fe, "features of frame at offset " << o); REQUIRE(gd == de, "descriptors of frame at offset " << o);
    if (f == last)
    {
      auto lf = set.last_frame_features()->features(); auto ld = set.last_frame_descriptors()->descriptors();
      std::sort(lf.begin(), lf.end()); std::sort(ld.begin(), ld.end());
      REQUIRE(lf == fe, "features of the last frame"); REQUIRE(ld == de, "descriptors of the last frame");
    }
    frame_id_t o2 = o + s.range(0, 2) - 1, f2 = o2 >= 0 ? o2 : last + 1 + o2; unsigned both = 0, any = 0;
    for (auto const& x : v) { bool a = x.m.st.count(f) > 0, b = x.m.st.count(f2) > 0; both += a && b; any += a || b; }
    REQUIRE_EQ(set.percentage_tracked(o, o2), (any ? double(both) / any : 0.0), "percentage tracked between offsets " << o << " and " << o2);
  }
  REQUIRE(norm(set.active_tracks()->tracks()) == norm(set.active_tracks(-1)->tracks()), "default offset is the last frame");
}
