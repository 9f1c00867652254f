// C16: camera files (KRTD_PART), C17: landmark and track files (TABLE_PART), C18: malformed files of all kinds (BAD_PART)
#include "geo.hpp"
#include <vital/io/camera_io.h>
#include <vital/io/camera_map_io.h>
#include <vital/io/landmark_map_io.h>
#include <vital/io/track_set_io.h>
#include <vital/types/landmark_map.h>
#include <vital/types/track_set.h>
#include <vital/types/camera_map.h>
#include <vital/exceptions.h>
#include <fstream>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include <algorithm>
using namespace kwiver::vital;
namespace {
std::string root;
void wipe(std::string const& d)
{
  if (root.size() < 5 || d.compare(0, root.size(), root) != 0) throw pbt::Fail("scratch");
  if (DIR* h = opendir(d.c_str()))
  {
    while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) { wipe(p); rmdir(p.c_str()); } else unlink(p.c_str()); }
    closedir(h);
  }
}
std::string slurp(std::string const& p) { std::ifstream f(p.c_str()); std::ostringstream o; o << f.rdbuf(); return o.str(); }
void put(std::string const& p, std::string const& t) { std::ofstream f(p.c_str()); f << t; }
bool close(double a, double b, double tol) { return std::fabs(a - b) <= tol * (1e-300 + std::fabs(b)); }

// a destination in the scratch directory: new, existing, or with missing directories in between
std::string destination(Src& s, char const* ext)
{
  std::string d = root + "/out"; mkdir(d.c_str(), 0700);
  switch (s.range(0, 3))
  {
  case 0: return d + "/f" + ext;
  case 1: put(d + "/g" + ext, std::string(s.range(1, 5000), 'x')); return d + "/g" + ext; // longer or shorter old content
  case 2: return d + "/new/deep/f" + ext;
  default: return d + "/new2//./f" + ext;
  }
}
template <class W> void must_fail(Src& s, W w)
{
  std::string d = root + "/bad"; mkdir(d.c_str(), 0700); mkdir((d + "/dir").c_str(), 0700); put(d + "/file", "keep me");
  std::string const dest[4] = {d + "/dir", d + "/file/below", d + "/file/below/f", "/dev/full"};
  std::string const& p = dest[s.idx(4)]; bool thrown = false; s.label("destination that fails");
  try { w(p); } catch (file_write_exception const&) { thrown = true; }
  REQUIRE(thrown, "writing to " << p << " must be reported"); REQUIRE_EQ(slurp(d + "/file"), std::string("keep me"), "file that is in the way");
}
template <class R> void must_not_find(R r)
{
  std::string d = root + "/none"; mkdir(d.c_str(), 0700); bool a = false;
  try { r(d + "/missing"); } catch (file_not_found_exception const&) { a = true; }
  REQUIRE(a, "a missing file must be reported as not found");
}

struct Cam { double f, ar, sk; V3 c; Eigen::Vector2d pp; M3 r; std::vector<double> d; std::shared_ptr<simple_camera> v; };
Cam gen_cam(Src& s)
{
  Cam k; k.f = s.chance(1, 4) ? 1000 : std::pow(10.0, s.real(-2, 5)); k.ar = s.chance(1, 3) ? 1 : s.real(0.2, 5); k.sk = s.flip() ? 0 : s.real(-0.3, 0.3) * k.f; k.pp << s.nice(2000), s.nice(2000);
  for (int i = 0; i < 2; ++i) if (!(std::fabs(k.pp[i]) < 1e6)) k.pp[i] = 0;
  double an = gen_angle(s); V3 ax = gen_unit(s); k.r = ref_rot(an, ax); k.c = gen_vec(s, 1e6);
  size_t n = s.range(0, 8); for (size_t i = 0; i < n; ++i) k.d.push_back(s.chance(1, 5) ? 0.0 : s.real(-1, 1) * std::pow(10.0, -double(s.range(0, 12))));
  if (k.d.size() == 1 && k.d[0] == 0) k.d.clear();
  Eigen::VectorXd d(k.d.size()); for (size_t i = 0; i < k.d.size(); ++i) d[i] = k.d[i];
  k.v.reset(new simple_camera(k.c, rotation_d(an, ax), simple_camera_intrinsics(k.f, k.pp, k.ar, k.sk, d)));
  return k;
}
void same_cam(camera const& c, Cam const& k, std::string const& what)
{
  double const e = 1e-10; camera_intrinsics_sptr i = c.intrinsics(); REQUIRE(i, what << ": intrinsics");
  REQUIRE(close(i->focal_length(), k.f, e) && close(i->aspect_ratio(), k.ar, e) && std::fabs(i->skew() - k.sk) <= e * k.f && (i->principal_point() - k.pp).norm() <= e * k.pp.norm(), what << ": calibration " << i->focal_length() << " " << i->aspect_ratio() << " " << i->skew() << " " << i->principal_point().transpose() << " of " << k.f << " " << k.ar << " " << k.sk << " " << k.pp.transpose());
  std::vector<double> d = i->dist_coeffs(); REQUIRE_EQ(d.size(), k.d.size(), what << ": number of distortion coefficients");
  for (size_t j = 0; j < d.size(); ++j) REQUIRE(close(d[j], k.d[j], e), what << ": distortion coefficient " << j << " is " << d[j] << " expected " << k.d[j]);
  REQUIRE(dist(M3(matrix_3x3d(c.rotation())), k.r) < 1e-10, what << ": rotation"); REQUIRE(dist(V3(c.center()), k.c) < 1e-9 * (1 + k.c.norm()), what << ": center " << c.center().transpose() << " expected " << k.c.transpose());
}

struct MLm { V3 loc, nor; rgb_color col; unsigned obs; };
typedef std::map<landmark_id_t, MLm> Lms;
Lms gen_lms(Src& s)
{
  Lms m; size_t n = 1; 
  do { MLm l; l.loc = V3(s.nice(1e6), s.nice(1e6), s.nice(1e6)); l.nor = s.flip() ? V3(0, 0, 0) : V3(s.nice(1), s.nice(1), s.nice(1)); l.col = rgb_color(s.range(0, 255), s.range(0, 255), s.range(0, 255)); l.obs = s.chance(1, 3) ? s.integer(0, 0xffffffffll) : s.range(0, 40); m[s.flip() ? s.range(0, 30) : s.chance(1, 2) ? s.integer(0, 0xffffffffll) : s.integer(0, 1ll << 60)] = l; } while (s.more(n, 6, 60));
  return m;
}
landmark_map_sptr build(Src& s, Lms const& m)
{
  landmark_map::map_landmark_t r;
  for (auto const& e : m)
  {
    std::shared_ptr<landmark_d> l(new landmark_d(e.second.loc, s.real(0.1, 3))); l->set_normal(e.second.nor); l->set_color(e.second.col); l->set_observations(e.second.obs); r[e.first] = l;
  }
  return landmark_map_sptr(new simple_landmark_map(r));
}
bool near(V3 const& a, V3 const& b) { for (int i = 0; i < 3; ++i) if (!close(a[i], b[i], 1e-11)) return false; return true; }
void same_lms(landmark_map_sptr g, Lms const& w, std::string const& what)
{
  landmark_map::map_landmark_t m = g->landmarks(); std::string a, b; for (auto const& e : m) a += std::to_string(e.first) + " "; for (auto const& e : w) b += std::to_string(e.first) + " ";
  REQUIRE_EQ(a, b, what << ": landmark ids"); REQUIRE_EQ(g->size(), w.size(), what << ": number of landmarks");
  for (auto const& e : w)
  {
    landmark const& l = *m[e.first];
    REQUIRE(near(l.loc(), e.second.loc), what << ": landmark " << e.first << " at " << l.loc().transpose() << " expected " << e.second.loc.transpose()); REQUIRE(near(l.normal(), e.second.nor), what << ": normal of landmark " << e.first);
    REQUIRE(l.color() == e.second.col, what << ": colour of landmark " << e.first << " is " << l.color() << " expected " << e.second.col); REQUIRE_EQ(l.observations(), e.second.obs, what << ": observations of landmark " << e.first);
  }
}

struct St { frame_id_t f; double x, y, mag, sc, an; rgb_color col; };
struct Tr { track_id_t id; std::vector<St> st; };
std::vector<Tr> gen_tracks(Src& s)
{
  std::vector<Tr> v; std::set<track_id_t> ids; size_t n = 0;
  do
  {
    Tr t; do { t.id = s.chance(2, 3) ? s.range(0, 20) : s.integer(0, 1ll << 60); if (s.replay_ && ids.count(t.id)) t.id = 1000 + ids.size(); } while (ids.count(t.id)); ids.insert(t.id);
    frame_id_t f = s.range(-3, 3); size_t m = 0;
    do { St x; x.f = f; f += s.chance(3, 4) ? 1 : s.range(1, 1000); x.x = s.nice(5000); x.y = s.nice(5000); x.mag = s.nice(100); x.sc = std::fabs(s.nice(10)); x.an = gen_angle(s); x.col = rgb_color(s.range(0, 255), s.range(0, 255), s.range(0, 255)); t.st.push_back(x); } while (s.more(m, 4, 30));
    v.push_back(t);
  } while (s.more(n, 3, 20));
  return v;
}
void same_tracks(track_set_sptr g, std::vector<Tr> const& w, std::string const& what)
{
  std::vector<track_sptr> t = g->tracks(); REQUIRE_EQ(t.size(), w.size(), what << ": number of tracks");
  for (size_t i = 0; i < w.size(); ++i)
  {
    REQUIRE_EQ(t[i]->id(), w[i].id, what << ": id of track " << i); REQUIRE_EQ(t[i]->size(), w[i].st.size(), what << ": states of track " << w[i].id);
    size_t j = 0;
    for (track::history_const_itr it = t[i]->begin(); it != t[i]->end(); ++it, ++j)
    {
      St const& x = w[i].st[j]; REQUIRE_EQ(it->frame_id, x.f, what << ": frame of state " << j << " of track " << w[i].id); REQUIRE(it->feat, what << ": feature");
      feature const& f = *it->feat;
      REQUIRE(close(f.loc().x(), x.x, 1e-11) && close(f.loc().y(), x.y, 1e-11) && close(f.magnitude(), x.mag, 1e-11) && close(f.scale(), x.sc, 1e-11) && close(f.angle(), x.an, 1e-11) && f.color() == x.col, what << ": feature of track " << w[i].id << " in frame " << x.f << " is " << f);
    }
  }
}
feature_sptr feat(St const& x) { return feature_sptr(new feature_d(Eigen::Vector2d(x.x, x.y), x.mag, x.sc, x.an, x.col)); }
}
PBT_INIT() { quiet_all(); root = pbt::scratch(); }

#ifdef KRTD_PART
PBT_PROP(krtd_round_trip, 12000, 600000, "rotated camera away from the origin with distortion coefficients")
{
  wipe(root); Cam k = gen_cam(s); std::string p = destination(s, ".krtd"); s.note() << "to " << p << "\n" << *k.v; if (!k.d.empty() && k.c.norm() > 0) s.nontrivial(); s.label("coefficients " + std::to_string(k.d.size()));
  write_krtd_file(*k.v, p); camera_sptr c = read_krtd_file(p); REQUIRE(c, "camera"); same_cam(*c, k, "read back");
  std::string t1 = slurp(p); write_krtd_file(*c, p); camera_sptr c2 = read_krtd_file(p); same_cam(*c2, k, "written and read twice");
  // layout is free: other white space, the same numbers
  std::string loose; bool last = false; size_t ln = 0; { std::istringstream i(t1); std::string l; while (std::getline(i, l)) { if (l.empty()) continue; ++ln; last = ln == 8; if (s.flip() && !last) loose += s.flip() ? "\n\n" : "  "; for (char x : l) loose += x == ' ' && s.chance(1, 3) ? std::string(" \t ") : std::string(1, x); loose += !last && s.chance(1, 3) ? " " : s.chance(1, 4) ? "\r\n" : "\n"; if (ln == 7) loose += "\n"; } }
  put(p, loose); same_cam(*read_krtd_file(p), k, "other white space in:\n" + loose);
  // without a last line there is no distortion
  size_t q = t1.rfind('\n', t1.size() - 2); put(p, t1.substr(0, q)); Cam k0 = k; k0.d.clear(); same_cam(*read_krtd_file(p), k0, "without distortion line");
  if (s.chance(1, 4)) must_fail(s, [&](std::string const& d) { write_krtd_file(*k.v, d); });
  must_not_find([&](std::string const& d) { read_krtd_file(d); }); bool dir = false; try { read_krtd_file(root); } catch (file_not_found_exception const&) { dir = true; } REQUIRE(dir, "a directory is no camera file");
}
PBT_PROP(krtd_directory, 4000, 200000, "at least two cameras and one image without")
{
  wipe(root); std::string d = root + "/cams"; mkdir(d.c_str(), 0700); if (s.chance(1, 4)) d += "/";
  size_t n = 0; std::vector<std::string> imgs; std::map<frame_id_t, Cam> want; std::set<std::string> stems; 
  while (s.more(n, 4, 12))
  {
    static const std::vector<std::string> dirs = {"", "/data/", "../x.y/", "imgs/", "./"}, exts = {".png", "", ".tar.gz", ".jpeg", ".a.b"};
    std::string stem = "im" + std::to_string(s.range(0, 30)) + (s.chance(1, 3) ? "_v" : ""), e = s.pick(exts); if (!stems.insert(stem).second) continue;
    std::string last = e == ".tar.gz" ? ".tar" : e == ".a.b" ? ".a" : ""; imgs.push_back(s.pick(dirs) + stem + e);
    if (s.chance(2, 3)) { Cam k = gen_cam(s); want[imgs.size() - 1] = k; write_krtd_file(*k.v, d + "/" + stem + last + ".krtd"); camera_sptr c = read_krtd_file(imgs.back(), d); same_cam(*c, k, "camera of image " + imgs.back()); }
    else { bool nf = false; try { read_krtd_file(imgs.back(), d); } catch (file_not_found_exception const&) { nf = true; } REQUIRE(nf, "image " << imgs.back() << " has no camera"); if (s.flip()) put(d + "/" + stem + ".krt", "no camera"); }
  }
  for (auto const& i : imgs) s.note() << i << " "; s.note() << "\n"; if (want.size() > 1 && want.size() < imgs.size()) s.nontrivial();
  camera_map_sptr m; bool none = false; try { m = read_krtd_files(imgs, d); } catch (invalid_data const&) { none = true; }
  REQUIRE_EQ(none, want.empty(), "a directory without cameras is reported"); if (none) return;
  REQUIRE_EQ(m->size(), want.size(), "number of cameras"); camera_map::map_camera_t cm = m->cameras();
  for (auto const& e : want) { REQUIRE(cm.count(e.first), "camera of image " << e.first); same_cam(*cm[e.first], e.second, "camera " + std::to_string(e.first)); }
  bool np = false; try { read_krtd_files(imgs, d + "/nowhere"); } catch (path_not_exists const&) { np = true; } REQUIRE(np, "a missing directory is reported");
}
#endif
#ifdef TABLE_PART
PBT_PROP(ply_round_trip, 8000, 400000, "at least three landmarks, one with a normal")
{
  wipe(root); Lms m = gen_lms(s); std::string p = destination(s, ".ply"); s.note() << m.size() << " landmarks to " << p << "\n"; bool nrm = false; for (auto const& e : m) { nrm |= e.second.nor.norm() > 0; s.note() << e.first << ": " << e.second.loc.transpose() << " n " << e.second.nor.transpose() << " c " << e.second.col << " o " << e.second.obs << "\n"; } if (nrm && m.size() > 2) s.nontrivial();
  write_ply_file(build(s, m), p); landmark_map_sptr g = read_ply_file(p); same_lms(g, m, "read back");
  write_ply_file(g, p); same_lms(read_ply_file(p), m, "written and read twice");
  bool e1 = false, e2 = false; std::string q = root + "/empty.ply"; try { write_ply_file(landmark_map_sptr(new simple_landmark_map), q); } catch (file_write_exception const&) { e1 = true; } try { write_ply_file(landmark_map_sptr(), q); } catch (file_write_exception const&) { e2 = true; } REQUIRE(e1 && e2 && access(q.c_str(), F_OK), "no landmarks are refused");
  if (s.chance(1, 4)) must_fail(s, [&](std::string const& d) { write_ply_file(build(s, m), d); });
  must_not_find([&](std::string const& d) { read_ply_file(d); }); bool dir = false; try { read_ply_file(root); } catch (file_not_found_exception const&) { dir = true; } REQUIRE(dir, "a directory is no landmark file");
}
PBT_PROP(ply_dialects, 10000, 500000, "properties in an order of their own with an unknown one, or a further element")
{
  // files by other writers: any order and subset of properties, aliases, unknown properties, comments, further elements
  wipe(root); Lms m = gen_lms(s); std::string o = "ply\nformat ascii 1.0\n"; auto comment = [&]() { if (s.chance(1, 5)) o += s.flip() ? "comment made by element vertex 7\n" : "obj_info property float x\n"; }; comment();
  static const std::vector<std::vector<std::string>> names = {{"x", "X"}, {"y"}, {"z", "Z"}, {"nx", "vsfm_cnx"}, {"ny", "vsfm_cny"}, {"nz", "vsfm_cnz"}, {"red", "diffuse_red", "Red"}, {"green", "diffuse_green"}, {"blue", "diffuse_blue"}, {"track_id"}, {"observations", "number_of_camera_sees_this_point"}};
  std::vector<int> cols; for (int i = 0; i < 11; ++i) if (s.chance(3, 4)) cols.push_back(i); size_t unk = s.range(0, 3); for (size_t i = 0; i < unk; ++i) cols.push_back(-1); if (s.flip()) for (size_t i = 0; i + 1 < cols.size(); ++i) std::swap(cols[i], cols[i + s.idx(cols.size() - i)]);
  if (cols.empty()) cols.push_back(0);
  auto has = [&](int c) { return std::find(cols.begin(), cols.end(), c) != cols.end(); };
  bool extra = s.chance(1, 3); size_t before = s.chance(1, 3) ? s.range(1, 4) : 0, cams = before ? s.range(0, 3) : 0; if (unk || extra || before) s.nontrivial();
  if (before) { o += "element camera " + std::to_string(before) + "\nproperty float x\nproperty float y\nproperty uint track_id\n"; comment(); if (cams) o += "element segment " + std::to_string(cams) + "\nproperty list uchar int vertex_index\n"; }
  o += "element vertex " + std::to_string(m.size()) + "\n"; for (int c : cols) { comment(); o += "property " + std::string(c == 9 ? "uint" : "float") + " " + (c < 0 ? std::string("intensity") : names[c][s.idx(names[c].size())]) + "\n"; }
  if (extra) o += "element face 1\nproperty list uchar int vertex_index\nproperty float x\n";
  o += "end_header\n"; Lms w; landmark_id_t n = 0; std::ostringstream body; body.precision(15); for (size_t i = 0; i < before; ++i) body << 100 + i << " " << 200 << " " << 300 + i << "\n"; for (size_t i = 0; i < cams; ++i) body << "2 0 1\n";
  for (auto const& e : m)
  {
    MLm l = e.second, r; r.loc.setZero(); r.nor.setZero(); r.obs = 0; bool first = true; if (s.chance(1, 10)) body << "\n";
    for (int c : cols)
    {
      body << (first ? "" : s.chance(1, 10) ? "\t " : " "); first = false;
      if (c < 0) body << (s.flip() ? "7" : "-1.5"); else if (c < 3) { body << l.loc[c]; r.loc[c] = l.loc[c]; } else if (c < 6) { body << l.nor[c - 3]; r.nor[c - 3] = l.nor[c - 3]; }
      else if (c == 6) { body << +l.col.r; r.col.r = l.col.r; } else if (c == 7) { body << +l.col.g; r.col.g = l.col.g; } else if (c == 8) { body << +l.col.b; r.col.b = l.col.b; } else if (c == 9) body << e.first; else { body << l.obs; r.obs = l.obs; }
    }
    body << "\n"; w[has(9) ? e.first : n] = r; ++n;
  }
  if (extra) body << "3 0 1 2 99\n4 1 2 3 4 98\n";
  o += body.str(); if (s.chance(1, 4)) { std::string c; for (char x : o) { if (x == '\n') c += '\r'; c += x; } o = c; }
  std::string p = root + "/d.ply"; put(p, o); s.note() << o; same_lms(read_ply_file(p), w, "landmarks");
}
PBT_PROP(track_round_trip, 8000, 400000, "at least two tracks, one with a gap between its frames")
{
  wipe(root); std::vector<Tr> v = gen_tracks(s); std::string p = destination(s, ".txt"); bool gap = false; std::vector<track_sptr> ts;
  for (auto const& t : v) { track_sptr x(new track); x->set_id(t.id); s.note() << "track " << t.id << ":"; for (size_t i = 0; i < t.st.size(); ++i) { s.note() << " " << t.st[i].f; if (i && t.st[i].f != t.st[i - 1].f + 1) gap = true; REQUIRE(x->append(track::track_state(t.st[i].f, feat(t.st[i]), descriptor_sptr())), "append"); } s.note() << "\n"; ts.push_back(x); if (s.chance(1, 8)) { track_sptr e(new track); e->set_id(-5 - ts.size()); ts.push_back(e); } }
  if (gap && v.size() > 1) s.nontrivial();
  write_track_file(track_set_sptr(new simple_track_set(ts)), p); track_set_sptr g = read_track_file(p); same_tracks(g, v, "read back"); write_track_file(g, p); same_tracks(read_track_file(p), v, "written and read twice");
  // lines of different tracks may be mixed
  std::vector<std::string> lines[2]; { std::istringstream i(slurp(p)); std::string l; while (std::getline(i, l)) lines[0].push_back(l); }
  std::map<std::string, std::vector<std::string>> by; std::vector<std::string> left, ord; for (auto const& l : lines[0]) { std::string id = l.substr(0, l.find(' ')); if (!by.count(id)) left.push_back(id); by[id].push_back(l); }
  std::string mix; while (!left.empty()) { size_t k = s.idx(left.size()); std::string id = left[k]; if (std::find(ord.begin(), ord.end(), id) == ord.end()) ord.push_back(id); mix += by[id].front() + "\n"; by[id].erase(by[id].begin()); if (by[id].empty()) left.erase(left.begin() + k); }
  std::vector<Tr> w; for (auto const& id : ord) for (auto const& t : v) if (std::to_string(t.id) == id) w.push_back(t);
  put(p, mix); same_tracks(read_track_file(p), w, "mixed lines");
  bool e1 = false, e2 = false; std::string q = root + "/empty.txt"; try { write_track_file(track_set_sptr(new simple_track_set), q); } catch (file_write_exception const&) { e1 = true; } try { write_track_file(track_set_sptr(), q); } catch (file_write_exception const&) { e2 = true; } REQUIRE(e1 && e2 && access(q.c_str(), F_OK), "no tracks are refused");
  if (s.chance(1, 4)) must_fail(s, [&](std::string const& d) { write_track_file(g, d); });
  must_not_find([&](std::string const& d) { read_track_file(d); }); bool dir = false; try { read_track_file(root); } catch (file_not_found_exception const&) { dir = true; } REQUIRE(dir, "a directory is no track file");
}
#endif
#ifdef BAD_PART
namespace {
// use whatever was read
void use(camera_sptr c) { REQUIRE(c, "a camera"); V3 x = c->center(); volatile double d = x[0] + c->depth(V3(1, 2, 3)); (void)d; REQUIRE(c->intrinsics(), "intrinsics"); std::ostringstream o; o << *c; (void)c->clone(); }
void use(landmark_map_sptr m) { REQUIRE(m, "a map"); for (auto const& e : m->landmarks()) { REQUIRE(e.second, "landmark"); std::ostringstream o; o << *e.second; } }
void use(track_set_sptr t) { REQUIRE(t, "a track set"); for (auto const& x : t->tracks()) { REQUIRE(x && x->size() > 0, "a track without states"); frame_id_t last = 0; bool first = true; for (track::history_const_itr i = x->begin(); i != x->end(); ++i) { REQUIRE(i->feat, "feature"); REQUIRE(first || i->frame_id > last, "frames of a track in order"); last = i->frame_id; first = false; std::ostringstream o; o << *i->feat; } } (void)t->all_frame_ids(); (void)t->first_frame(); }
std::string outcome(int kind, std::string const& p) { try { if (kind == 0) use(read_krtd_file(p)); else if (kind == 1) use(read_ply_file(p)); else use(read_track_file(p)); return "read"; } catch (io_exception const& e) { return std::string(e.what()).empty() ? "unnamed" : "refused"; } }
std::string valid(Src& s, int kind, std::string const& p)
{
  if (kind == 0) write_krtd_file(*gen_cam(s).v, p); else if (kind == 1) write_ply_file(build(s, gen_lms(s)), p);
  else { std::vector<track_sptr> ts; for (auto const& t : gen_tracks(s)) { track_sptr x(new track); x->set_id(t.id); for (auto const& st : t.st) x->append(track::track_state(st.f, feat(st), descriptor_sptr())); ts.push_back(x); } write_track_file(track_set_sptr(new simple_track_set(ts)), p); }
  return slurp(p);
}
std::string mangle(Src& s, std::string t)
{
  size_t n = 0;
  do
  {
    if (t.empty()) { t = "1"; continue; }
    size_t at = s.idx(t.size());
    switch (s.range(0, 7))
    {
    case 0: t = t.substr(0, at); break;
    case 1: t[at] = char(s.range(0, 255)); break;
    case 2: t.erase(at, s.range(1, 40)); break;
    case 3: { static const std::vector<std::string> w = {"x", "nan", "inf", "-inf", "1e999", "99999999999999999999999", "-", "0x10", "\n", "\n\n", "\r", " ", "end_header\n", "element vertex 99999999999\n", "element vertex -1\n", "property float x\n", "1e", "--1", "+", "\t", std::string(1, '\0')}; t.insert(at, s.pick(w)); break; }
    case 4: { size_t l = s.range(1, 200); t.insert(at, t.substr(s.idx(t.size()), l)); break; }
    case 5: { size_t a = t.find_first_of(" \n", at); if (a != std::string::npos) { size_t b = t.find_first_of(" \n", a + 1); if (b != std::string::npos) t.erase(a, b - a); } break; }
    case 6: t.insert(at, 1, char(s.range(0, 255))); break;
    default: t += t.substr(at); if (t.size() > 100000) t.resize(100000);
    }
  } while (s.more(n, 2, 12));
  return t;
}
}
PBT_PROP(bad_cameras, 20000, 1000000, "every case")
{ // a camera without all of its numbers is never accepted
  wipe(root); std::string p = root + "/c.krtd"; std::string t = valid(s, 0, p), good = t; std::vector<std::pair<size_t, size_t>> tok; for (size_t i = 0; i < t.size();) { if (isspace((unsigned char)t[i])) { ++i; continue; } size_t b = i; while (i < t.size() && !isspace((unsigned char)t[i])) ++i; tok.push_back({b, i - b}); }
  REQUIRE(tok.size() >= 22, "numbers of a camera"); s.nontrivial(); size_t k; std::string what;
  switch (s.range(0, 2))
  {
  case 0: k = s.idx(21); t = t.substr(0, tok[k].first) + (s.flip() ? "" : "\n"); what = "cut before number"; break;
  case 1: { static const std::vector<std::string> w = {"x", "abc", "-", "1,5x", "?", "#", "e5", "."}; k = s.idx(tok.size()); t.replace(tok[k].first, tok[k].second, s.pick(w)); what = "no number instead of number"; break; }
  default: k = s.idx(21); t.erase(tok[k].first, tok[k].second); { size_t q = t.rfind('\n', t.size() - 2); t.resize(q); } what = "missing number"; // and no distortion line to take it from
  }
  s.note() << what << " " << k << "\n" << t; put(p, t); REQUIRE_EQ(outcome(0, p), std::string("refused"), what << " " << k);
  // nor among the cameras of several images
  put(root + "/a.krtd", good); std::vector<path_t> imgs = {"a.png", "x/c.png"}; if (s.flip()) std::swap(imgs[0], imgs[1]); bool refused = false; try { read_krtd_files(imgs, root); } catch (invalid_data const&) { refused = true; } REQUIRE(refused, what << " " << k << " in a directory of cameras");
}
PBT_PROP(bad_tracks, 20000, 1000000, "every case")
{ // a line without its ids and location is never accepted
  wipe(root); std::string p = root + "/t.txt"; std::string t = valid(s, 2, p); std::vector<std::string> l; { std::istringstream i(t); std::string x; while (std::getline(i, x)) l.push_back(x); } s.nontrivial();
  size_t k = s.idx(l.size()); std::vector<std::string> tok; { std::istringstream i(l[k]); std::string x; while (i >> x) tok.push_back(x); } REQUIRE(tok.size() == 10, "numbers of a line: " << l[k]);
  size_t f = s.idx(4); static const std::vector<std::string> w = {"x", "abc", "-", "?", "#1", "e5"}; if (s.flip()) tok[f] = s.pick(w); else tok.resize(f);
  l[k].clear(); for (auto const& x : tok) l[k] += x + " "; t.clear(); for (auto const& x : l) t += x + "\n"; s.note() << t; put(p, t); REQUIRE_EQ(outcome(2, p), std::string("refused"), "line " << k + 1 << " without a proper number " << f);
}
PBT_PROP(mutated_files, 30000, 2000000, "mutated file that is still accepted")
{
  wipe(root); int kind = s.range(0, 2); static char const* const ext[] = {".krtd", ".ply", ".txt"}; std::string p = root + "/m" + ext[kind], t = mangle(s, valid(s, kind, p)); put(p, t); s.note() << pbt::show(t) << "\n";
  std::string o = outcome(kind, p); s.label(std::string(ext[kind]) + " " + o); if (o == "read") s.nontrivial(); REQUIRE(o == "read" || o == "refused", "outcome " << o);
  REQUIRE_EQ(outcome(kind, p), o, "outcome of reading again");
  if (o == "read" && kind == 1)
  { // never more landmarks than the last declaration before the end of the header
    std::istringstream i(t); std::string l; unsigned long long decl = 0; auto end = [](std::string const& h) { std::istringstream x(h); std::string a, b; return (x >> a) && a == "end_header" && !(x >> b); }; while (std::getline(i, l) && !end(l)) { std::istringstream x(l); std::string a, b; unsigned n = 0; std::string c, rest; if (x >> a >> b >> c && !(x >> rest) && a == "element" && b == "vertex") { std::istringstream y(c); y >> n; decl = n; } }
    REQUIRE(read_ply_file(p)->size() <= decl, "more landmarks than declared");
  }
}
PBT_PROP(random_files, 15000, 1000000, "at least 20 bytes")
{
  wipe(root); int kind = s.range(0, 2); std::string t, p = root + "/r"; size_t n = 0; static const std::vector<std::string> w = {"ply\n", "end_header\n", "element vertex 3\n", "property float x\n", "property uint track_id\n", "1 ", "-2.5 ", "1e5 ", "nan ", "\n", "x", "0 0 0\n", "255 ", "7 7 1 2 3 4 5 6 7 8\n", "1 0 0\n0 1 0\n0 0 1\n"};
  while (s.more(n, 15, 200)) { if (s.chance(3, 4)) t += s.pick(w); else t += char(s.range(0, 255)); } if (t.size() >= 20) s.nontrivial(); put(p, t); s.note() << pbt::show(t) << "\n";
  std::string o = outcome(kind, p); s.label("kind " + std::to_string(kind) + " " + o); REQUIRE(o == "read" || o == "refused", "outcome " << o); REQUIRE_EQ(outcome(kind, p), o, "outcome of reading again");
}
#endif
