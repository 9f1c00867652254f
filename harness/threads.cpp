// Threads that share nothing but the library, or only constant objects, must not disturb each other.
// Every thread runs a generated program and says what it saw; afterwards the same programs run alone.
// Built with the thread sanitizer: an unsynchronized access is found however the threads happen to run.
#include "geo.hpp"
#include <vital/algo/convert_image.h>
#include <vital/algo/algorithm.txx>
#include <vital/bindings/c/camera.h>
#include <vital/bindings/c/config_block.h>
#include <vital/bindings/c/image.h>
#include <vital/bindings/c/image_container.h>
#include <vital/bindings/c/track.h>
#include <vital/bindings/c/track_set.h>
#include <vital/algorithm_plugin_manager.h>
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>
#include <vital/exceptions.h>
#include <vital/io/camera_io.h>
#include <vital/io/landmark_map_io.h>
#include <vital/io/track_set_io.h>
#include <vital/logger/logger.h>
#include <vital/registrar.h>
#include <vital/types/camera.h>
#include <vital/types/homography.h>
#include <vital/types/image_container.h>
#include <vital/types/landmark_map.h>
#include <vital/types/rotation.h>
#include <vital/types/similarity.h>
#include <vital/types/timestamp.h>
#include <vital/types/track_set.h>
#include <vital/util/get_paths.h>
#include <vital/util/tokenize.h>
#include <kwiversys/CommandLineArguments.hxx>
#include <kwiversys/Directory.hxx>
#include <kwiversys/RegularExpression.hxx>
#include <kwiversys/SystemInformation.hxx>
#include <kwiversys/SystemTools.hxx>
#include <atomic>
#include <fstream>
#include <functional>
#include <ftw.h>
#include <random>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
namespace kv = kwiver::vital;
using namespace kwiver::vital;
typedef std::vector<std::string> Strs;
typedef kwiversys::SystemTools ST;
extern "C" char const* __tsan_default_options() { return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=0:history_size=4"; }
namespace {
void put(std::string const& p, std::string const& t) { std::ofstream f(p.c_str(), std::ios::binary); f << t; }
std::string get(std::string const& p) { std::ifstream f(p.c_str(), std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
struct Rng
{
  std::mt19937 g; explicit Rng(uint64_t s) : g(static_cast<unsigned>(s * 2654435761u + 12345)) {}
  size_t idx(size_t n) { return g() % n; }
  bool flip() { return g() & 1; }
  template <class T> T const& pick(std::vector<T> const& v) { return v[idx(v.size())]; }
  double real() { return static_cast<double>(g() % 20001) / 100 - 100; }
  std::string word() { std::string r; for (size_t n = 1 + idx(8); n > 0; --n) r += static_cast<char>('a' + idx(26)); return r; }
};
// what the threads share, all of it constant
struct Shared
{
  std::string dir; config_block_sptr conf; track_set_sptr tracks; landmark_map_sptr marks; image im; image_container_sptr ic; std::shared_ptr<simple_camera> cam; rotation_d rot; homography_sptr h; timestamp ts; size_t round = 0;
};
typedef std::function<std::string(Rng, Shared const&, std::string const&)> Program; // the last: a directory of its own

std::string all(config_block_sptr c)
{
  std::ostringstream o; for (auto const& k : c->available_values()) { o << k << "=" << c->get_value<std::string>(k) << "/" << c->get_description(k) << (c->is_read_only(k) ? " ro" : ""); std::string f; int l = 0; if (c->get_location(k, f, l)) o << " " << f.substr(f.rfind('/') + 1) << ":" << l; o << "\n"; }
  return o.str();
}
std::string conf_text(Rng& r, bool wrong)
{
  std::string t; size_t blocks = 0;
  for (size_t n = 2 + r.idx(12); n > 0; --n)
    switch (r.idx(wrong ? 9 : 8))
    {
      case 0: t += "block " + r.word() + "\n"; ++blocks; break;
      case 1: if (blocks) { t += "endblock\n"; --blocks; } break;
      case 2: t += r.word() + " := " + r.word() + "\n"; break;
      case 3: t += r.word() + std::to_string(n) + "[RO] = " + r.word() + " # note\n"; break;
      case 4: t += "v" + std::to_string(n) + " = $ENV{VERIF_SHARED}/" + r.word() + "$LOCAL{none}$ENV{HOME_NOT}x\n"; break;
      case 5: t += "relativepath p" + std::to_string(n) + " = " + r.word() + "\n"; break;
      case 6: t += "loc := " + r.word() + "\nw" + std::to_string(n) + " = <$LOCAL{loc}> $SYSENV{pid} $CONFIG{nothing}\n"; break;
      case 7: t += r.word() + ":" + r.word() + " = " + r.word() + " " + r.word() + "\n"; break;
      default: t += "*" + r.word() + "\n";
    }
  for (; blocks > 0; --blocks) t += "endblock\n";
  return t;
}
std::string parse(Rng r, Shared const& sh, std::string const& d)
{
  std::ostringstream o;
  for (int k = 0; k < 3; ++k)
  {
    std::string f = d + "/c" + std::to_string(k) + ".conf"; bool wrong = r.idx(6) == 0; put(f, conf_text(r, wrong) + (r.flip() ? "include " + sh.dir + "/shared.conf\n" : ""));
    try { config_block_sptr c = r.flip() ? read_config_file(f) : read_config_file(f.substr(f.rfind('/') + 1), "app", "1.0", d); o << all(c); if (!c->available_values().empty()) { write_config_file(c, d + "/out.conf"); o << all(read_config_file(d + "/out.conf")); } }
    catch (std::exception const& e) { std::string w = e.what(); o << "error " << w.substr(0, w.find(d)) << (w.find("/c" + std::to_string(k) + ".conf") != std::string::npos) << "\n"; }
  }
  return o.str();
}
std::string constants(Rng r, Shared const& s, std::string const&)
{
  std::ostringstream o; o.precision(12);
  for (int k = 0; k < 12; ++k)
    switch (r.idx(10))
    {
      case 0: for (auto const& x : s.conf->available_values()) o << x << s.conf->get_value<std::string>(x) << s.conf->is_read_only(x) << s.conf->get_description(x); break;
      case 1: { std::string a = s.conf->get_value<std::string>("none", "d"); o << s.conf->has_value("a") << s.conf->get_value<int>("n") << a; try { s.conf->get_value<double>("text"); } catch (std::exception const& e) { o << e.what(); } try { s.conf->get_value<int>("missing"); } catch (std::exception const& e) { o << e.what(); } o << all(s.conf->subblock("b")); o << all(s.conf->subblock_view("b")); break; }
      case 2: for (auto const& t : s.tracks->tracks()) { o << t->id() << " " << t->size() << " " << t->first_frame() << t->last_frame(); for (auto const& f : t->all_frame_ids()) o << f; auto i = t->find(static_cast<frame_id_t>(r.idx(6))); if (i != t->end()) o << i->feat->loc(); } break;
      case 3: o << s.tracks->active_tracks(static_cast<int>(r.idx(8)))->size() << s.tracks->last_frame() << s.tracks->all_frame_ids().size() << s.tracks->terminated_tracks(3)->size() << s.tracks->new_tracks(1)->size() << s.tracks->percentage_tracked(1, 2); break;
      case 4: { image i(s.im); image c; c.copy_from(i); o << int(i(1, 1, 0)) << int(c(0, 2, 0)) << equal_content(i, c) << i.width() << s.ic->get_image().height(); c(0, 0, 0) = 3; break; }
      case 5: { vector_3d p(r.real(), r.real(), r.real() + 300); o << s.cam->project(p) << s.cam->depth(p) << s.cam->intrinsics()->map(vector_2d(1, 2)) << s.cam->intrinsics()->unmap(vector_2d(3, 4)) << s.cam->as_matrix() << s.cam->clone()->center() << s.cam->rotation(); break; }
      case 6: { rotation_d q(s.rot * rotation_d(r.real(), vector_3d(0, 0, 1))); double y, p, l; s.rot.get_yaw_pitch_roll(y, p, l); o << q.rodrigues() << s.rot.angle() << s.rot.axis() << s.rot.inverse() << y << p << l << interpolate_rotation(s.rot, q, 0.5); break; }
      case 7: { vector_2d v(r.real(), r.real()); o << s.h->map(v) << s.h->inverse()->map(v) << s.h->clone()->matrix() << s.h->normalize()->matrix(); break; }
      case 8: for (auto const& l : s.marks->landmarks()) o << l.first << l.second->loc() << l.second->clone()->color(); break;
      default: o << s.ts.pretty_print() << (s.ts < timestamp(5, 6)) << s.ts.get_time_seconds(); kv::similarity_d a(r.real() + 101, s.rot, vector_3d(1, 2, 3)); o << (a * a.inverse()).scale() << a; std::istringstream i("1 2 3 4 5 6 7 8"); i >> a;
    }
  return o.str();
}
std::string files(Rng r, Shared const& s, std::string const& d)
{
  std::ostringstream o; o.precision(9);
  for (int k = 0; k < 2; ++k)
  {
    std::string f = d + "/data";
    try
    {
      switch (r.idx(6))
      {
        case 0: { simple_camera c(vector_3d(r.real(), r.real(), 1), rotation_d(r.real() / 50, vector_3d(0, 1, 0)), simple_camera_intrinsics(r.real() + 200, vector_2d(1, 2))); write_krtd_file(c, f); o << get(f) << read_krtd_file(f)->center(); break; }
        case 1: { landmark_map::map_landmark_t m; for (size_t n = 1 + r.idx(4); n > 0; --n) m[static_cast<landmark_id_t>(n)] = landmark_sptr(new landmark_d(vector_3d(r.real(), r.real(), 2))); write_ply_file(landmark_map_sptr(new simple_landmark_map(m)), f); o << get(f) << read_ply_file(f)->size(); break; }
        case 2: { std::vector<track_sptr> v; for (size_t n = 1 + r.idx(4); n > 0; --n) { track_sptr t(new track(track::track_state(static_cast<frame_id_t>(n), feature_sptr(new feature_d(vector_2d(r.real(), r.real()))), descriptor_sptr()))); t->set_id(n); v.push_back(t); } write_track_file(track_set_sptr(new simple_track_set(v)), f); o << get(f) << read_track_file(f)->size(); break; }
        case 3: o << read_ply_file(s.dir + "/shared.ply")->size() << read_krtd_file(s.dir + "/shared.krtd")->center() << read_track_file(s.dir + "/shared.txt")->size(); break;
        case 4: put(f, "no camera"); read_krtd_file(f); break;
        default: read_ply_file(f + "-none");
      }
    }
    catch (std::exception const& e) { std::string w = e.what(); size_t p; while ((p = w.find(d)) != std::string::npos) w.erase(p, d.size()); o << w << "\n"; }
  }
  return o.str();
}
std::string paths(Rng r, Shared const& s, std::string const& d)
{
  std::ostringstream o; int cmp = 0; std::string me = d.substr(d.rfind('/'));
  auto tell = [&](std::string x) { size_t p; while ((p = x.find(me)) != std::string::npos) x.erase(p, me.size()); o << x << "\n"; };
  for (int k = 0; k < 6; ++k)
    switch (r.idx(11))
    {
      case 0: tell(ST::CollapseFullPath(r.word() + "/../" + r.word() + "/./x")); tell(ST::RelativePath("/a/" + r.word(), "/a/b/" + r.word())); break;
      case 1: { kwiversys::RegularExpression e("([a-m]+)([n-z]+)"); std::string w = r.word() + r.word(); if (e.find(w)) o << e.match(1) << "," << e.match(2) << e.start() << e.end(); break; }
      case 2: { kwiversys::CommandLineArguments a; a.Initialize(); std::string v; bool b = false; a.AddArgument("--v", kwiversys::CommandLineArguments::EQUAL_ARGUMENT, &v, "a value"); a.AddBooleanArgument("--b", &b, "a flag"); std::string w = "--v=" + r.word(); char const* argv[] = { "p", w.c_str(), "--b" }; a.Initialize(3, argv); a.StoreUnusedArguments(true); o << a.Parse() << v << b << a.GetHelp(); break; }
      case 3: { ST::MakeDirectory(d + "/m/n"); put(d + "/m/f", r.word()); kwiversys::Directory l; l.Load(d + "/m"); o << l.GetNumberOfFiles() << ST::FileExists(d + "/m/f") << ST::FileIsDirectory(d + "/m/n/") << ST::FileIsDirectory(d + "/m/f/") << ST::FileIsDirectory(d + "/m/n") << ST::FileLength(d + "/m/f"); ST::CopyFileAlways(d + "/m/f", d + "/m/n/g"); o << ST::FilesDiffer(d + "/m/f", d + "/m/n/g"); ST::RemoveADirectory(d + "/m"); o << ST::FileExists(d + "/m"); break; }
      case 4: { std::string p = "/a/b." + r.word() + ".c"; o << ST::GetFilenamePath(p) << ST::GetFilenameExtension(p) << ST::GetFilenameWithoutLastExtension(p) << ST::UpperCase(p) << ST::CapitalizedWords(p) << ST::UnCapitalizedWords(p) << ST::EscapeChars(p.c_str(), ".", '\\'); std::vector<std::string> v; ST::SplitPath(p, v); o << ST::JoinPath(v) << v.size(); ST::Split(p, v, '/'); o << v.size() << ST::CropString(p, 4); ST::ReplaceString(p, "b", "xx"); o << p; break; }
      case 5: { std::string v; o << ST::GetEnv("VERIF_SHARED", v) << v << (ST::GetEnv("VERIF_NONE") ? 1 : 0) << ST::FindProgram("sh").empty() << ST::FindFile("shared.conf", std::vector<std::string>(1, s.dir), true).empty(); break; }
      case 6: o << get_executable_path().empty() << get_module_path().empty() << (get_executable_path() == get_executable_path()); break;
      case 7: { Strs t; std::string w = r.word() + "," + r.word() + ",," + r.word(); tokenize(w, t, ",", r.flip()); for (auto const& x : t) o << x << "|"; break; }
      case 8: tell(ST::GetRealPath(s.dir + "/shared.conf")); o << ST::FileTimeCompare(s.dir + "/shared.conf", s.dir + "/shared.conf", &cmp) << (ST::ModifiedTime(s.dir + "/shared.conf") > 0) << ST::GetCurrentDateTime("%Y").size(); break;
      case 9: { kwiversys::SystemInformation i; i.RunOSCheck(); i.RunMemoryCheck(); o << i.GetOSName() << (i.GetTotalPhysicalMemory() > 0) << i.GetHostname(); break; }
      default: { std::string w = r.word(); put(d + "/l", w + "\n" + r.word()); std::ifstream f((d + "/l").c_str()); std::string l; while (ST::GetLineFromStream(f, l)) o << l << ";"; o << ST::Strucmp(w.c_str(), "M") << ST::ComparePath(w, w) << ST::StringStartsWith(w.c_str(), "a"); }
    }
  return o.str();
}
std::string loggers(Rng r, Shared const& s, std::string const&)
{
  std::ostringstream o;
  for (int k = 0; k < 8; ++k)
  {
    std::string n = r.flip() ? "shared." + std::to_string(r.idx(4)) + "." + std::to_string(s.round) : r.word(); logger_handle_t a = get_logger(n), b = get_logger(n.c_str());
    o << n << (a == b) << a->get_name() << a->is_error_enabled() << "\n"; if (r.idx(3) == 0) LOG_ERROR(a, "message " << k << "\nof two lines"); LOG_DEBUG(a, "debug " << k); LOG_TRACE(a, "trace");
  }
  return o.str();
}
// algorithms
class maker : public algorithm_def<maker>
{
public:
  static std::string static_type_name() { return "maker"; }
  virtual int make() const = 0;
};
template <int N> class make_impl : public algorithm_impl<make_impl<N>, maker>
{
public:
  int v = N; std::shared_ptr<maker> in;
  std::string impl_name() const override { return "make" + std::to_string(N); }
  config_block_sptr get_configuration() const override { config_block_sptr c = algorithm::get_configuration(); c->set_value("v", v, "a number"); maker::get_nested_algo_configuration("in", c, in); return c; }
  void set_configuration(config_block_sptr c) override { v = c->get_value<int>("v", v); maker::set_nested_algo_configuration("in", c, in); }
  bool check_configuration(config_block_sptr c) const override { return c->get_value<int>("v", 0) >= 0; }
  int make_() const { return v + (in ? 10 * in->make() : 0); }
  int make() const override { return make_(); }
};
} // namespace
INSTANTIATE_ALGORITHM_DEF(maker);
namespace {
std::string algos(Rng r, Shared const&, std::string const&)
{
  std::ostringstream o;
  for (int k = 0; k < 4; ++k)
  {
    std::string n = "make" + std::to_string(1 + r.idx(3)); std::shared_ptr<maker> a = maker::create(n); o << a->make() << a->type_name() << a->impl_name();
    config_block_sptr c = config_block::empty_config(); c->set_value("type", n); c->set_value(n + ":v", r.idx(9)); if (r.flip()) { c->set_value(n + ":in:type", "make2"); c->set_value(n + ":in:make2:v", r.idx(9)); } else if (r.flip()) c->set_value(n + ":in:type", "nothing");
    config_block_sptr top = config_block::empty_config(); top->subblock_view("x")->merge_config(c);
    o << maker::check_nested_algo_configuration("x", top); std::shared_ptr<maker> b; maker::set_nested_algo_configuration("x", top, b); o << (b ? b->make() : -1); config_block_sptr g = config_block::empty_config(); maker::get_nested_algo_configuration("x", g, b); o << all(g);
    o << a->clone()->make() << maker::registered_names().size() << algorithm::registered_names().size() << maker::has_impl_name("make9"); try { maker::create("make9"); } catch (std::exception const& e) { o << e.what(); }
  }
  return o.str();
}
std::string c_interface(Rng r, Shared const& s, std::string const& d)
{
  std::ostringstream o; vital_error_handle_t* e = vital_eh_new();
  auto str = [&](vital_string_t* x) { if (x) { o << std::string(x->str, x->length) << ";"; vital_string_free(x); } else o << "none;"; };
  for (int k = 0; k < 5; ++k)
    switch (r.idx(6))
    {
      case 0:
      {
        vital_config_block_t* c = vital_config_block_new_named(r.word().c_str()); for (int i = 0; i < 3; ++i) vital_config_block_set_value(c, ("b:" + r.word()).c_str(), r.word().c_str()); vital_config_block_t* b = vital_config_block_subblock_view(c, "b"); unsigned n = 0; char** p = nullptr; vital_config_block_available_values(b, &n, &p); for (unsigned i = 0; i < n; ++i) { o << p[i]; str(vital_config_block_get_value(b, p[i])); } vital_common_free_string_list(n, p); str(vital_config_block_get_name(c)); vital_config_block_destroy(b, e); vital_config_block_destroy(c, e); o << e->error_code; break;
      }
      case 1: o << vital_config_block_block_sep()->str << vital_config_block_global_value()->str; break;
      case 2: { vital_image_t* a = vital_image_new_with_dim(3, 4, 1, false); vital_image_container_t* c = vital_image_container_new_simple(a); o << vital_image_container_width(c) << vital_image_container_size(c); vital_image_t* b = vital_image_container_get_image(c); o << vital_image_height(b); vital_image_destroy(b); vital_image_container_destroy(c, e); vital_image_destroy(a); o << e->error_code; break; }
      case 3: { vital_track_t* t[3]; for (auto& x : t) x = vital_track_new(); vital_trackset_t* u = vital_trackset_new(3, t); o << vital_trackset_size(u, e) << vital_track_empty(t[0], e); vital_trackset_destroy(u, e); for (auto x : t) vital_track_destroy(x, e); o << e->error_code; break; }
      case 4: { vital_camera_t* c = vital_camera_read_krtd_file((s.dir + "/shared.krtd").c_str(), e); o << e->error_code << (c != nullptr); vital_camera_write_krtd_file(c, (d + "/c.krtd").c_str(), e); o << get(d + "/c.krtd"); vital_camera_destroy(c, e); break; }
      default: { vital_trackset_t* u = vital_trackset_new_from_file((s.dir + "/shared.txt").c_str(), e); o << vital_trackset_size(u, e); vital_trackset_write_track_file(u, (d + "/t.txt").c_str(), e); o << get(d + "/t.txt"); vital_trackset_destroy(u, e); vital_trackset_destroy(nullptr, e); o << e->error_code; vital_eh_destroy(e); e = vital_eh_new(); }
    }
  vital_eh_destroy(e); return o.str();
}

std::string const& base() { static std::string d; static pid_t o = 0; if (o != getpid()) { o = getpid(); d = pbt::scratch(); } return d; }
Shared share(Src& s)
{
  static unsigned no = 0; Shared r; r.round = no++; r.dir = base() + "/t" + std::to_string(r.round); mkdir(r.dir.c_str(), 0700); Rng g(s.raw(1u << 30)); setenv("VERIF_SHARED", "shared-value", 1);
  r.conf = config_block::empty_config(); for (char const* k : { "a", "b:c", "b:d:e", "n", "text" }) r.conf->set_value(k, k == std::string("n") ? "7" : g.word(), "about " + g.word()); r.conf->mark_read_only("a");
  std::vector<track_sptr> v; for (size_t n = 0; n < 4; ++n) { track_sptr t(new track); t->set_id(n); for (size_t f = n; f < n + 4; ++f) t->append(track::track_state(f, feature_sptr(new feature_d(vector_2d(g.real(), g.real()))), descriptor_sptr())); v.push_back(t); }
  r.tracks.reset(new simple_track_set(v)); landmark_map::map_landmark_t m; for (int i = 0; i < 4; ++i) m[i] = landmark_sptr(new landmark_d(vector_3d(g.real(), 1, 2))); r.marks.reset(new simple_landmark_map(m));
  r.im = image(4, 5, 1); for (size_t i = 0; i < 20; ++i) r.im(static_cast<unsigned>(i % 4), static_cast<unsigned>(i / 4), 0) = static_cast<unsigned char>(g.idx(256)); r.ic.reset(new simple_image_container(r.im));
  r.rot = rotation_d(g.real(), vector_3d(0.6, 0.8, 0)); r.cam.reset(new simple_camera(vector_3d(1, 2, 3), r.rot, simple_camera_intrinsics(1000, vector_2d(320, 240), 1, 0, (Eigen::VectorXd(2) << 0.01, 0.001).finished()))); Eigen::Matrix3d h; h << 1, 0.1, 2, 0.2, 1, 3, 0, 0, 1; r.h.reset(new homography_<double>(h)); r.ts = timestamp(4, 3);
  put(r.dir + "/shared.conf", "shared = 1\nblock b\n  x = $ENV{VERIF_SHARED} # y\nendblock\n"); write_krtd_file(*r.cam, r.dir + "/shared.krtd"); write_ply_file(r.marks, r.dir + "/shared.ply"); write_track_file(r.tracks, r.dir + "/shared.txt");
  return r;
}
struct Quiet { std::ostringstream o; std::streambuf* b; Quiet() : b(std::cerr.rdbuf(o.rdbuf())) {} ~Quiet() { std::cerr.rdbuf(b); } };
void concurrently(Src& s, std::vector<std::pair<char const*, Program>> const& kinds)
{
  Quiet q; Shared sh = share(s); size_t n = static_cast<size_t>(s.range(2, 5)); struct Gone { std::string r; ~Gone() { nftw(r.c_str(), [](char const* f, struct stat const*, int, struct FTW*) { return remove(f); }, 16, FTW_DEPTH | FTW_PHYS); } } gone{ sh.dir };
  std::vector<size_t> kind; std::vector<uint64_t> seed; for (size_t i = 0; i < n; ++i) { kind.push_back(s.idx(kinds.size())); seed.push_back(s.chance(1, 4) && i ? seed[0] : s.raw(1u << 30)); s.note() << "thread " << i << ": " << kinds[kind[i]].first << " " << seed[i] << "\n"; }
  if (n > 2) s.nontrivial();
  std::vector<std::string> got(n), failed(n), dirs(n); std::atomic<size_t> ready(0); std::vector<std::thread> th;
  for (size_t i = 0; i < n; ++i) { dirs[i] = sh.dir + "/own" + std::to_string(i); mkdir(dirs[i].c_str(), 0700); }
  int rounds = 3;
  for (size_t i = 0; i < n; ++i) th.emplace_back([&, i]() {
    ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
    for (int k = 0; k < rounds; ++k) try { std::string g = kinds[kind[i]].second(Rng(seed[i]), sh, dirs[i]); if (k == 0) got[i] = g; else if (g != got[i]) failed[i] = "in round " + std::to_string(k) + "\n" + g.substr(0, 2000) + "\nand before it\n" + got[i].substr(0, 2000); } catch (std::exception const& e) { failed[i] = e.what(); } });
  for (auto& t : th) t.join();
  std::istringstream log(q.o.str()); size_t pos = 0; for (std::string l; std::getline(log, l);) if ((pos = l.find("message ")) != std::string::npos) { REQUIRE(l.size() == pos + 9 && std::getline(log, l) && l.size() > 12 && l.substr(l.size() - 12) == "of two lines", "the log has a broken line: " << l); }
  for (size_t i = 0; i < n; ++i)
  {
    REQUIRE_EQ(failed[i], std::string(), "thread " << i);
    std::string alone = kinds[kind[i]].second(Rng(seed[i]), sh, dirs[i]);
    REQUIRE(got[i] == alone, "thread " << i << " saw\n" << got[i].substr(0, 2000) << "\nalone it sees\n" << alone.substr(0, 2000));
    s.label(kinds[kind[i]].first);
  }
}
std::vector<std::pair<char const*, Program>> const everything = { { "parse", parse }, { "constants", constants }, { "files", files }, { "paths", paths }, { "loggers", loggers }, { "algos", algos }, { "c_interface", c_interface } };
} // namespace
PBT_INIT()
{
  registrar& r = registrar::instance(); algorithm_def<maker>::register_instance(r, std::shared_ptr<maker>(new make_impl<1>)); algorithm_def<maker>::register_instance(r, std::shared_ptr<maker>(new make_impl<2>)); algorithm_def<maker>::register_instance(r, std::shared_ptr<maker>(new make_impl<3>));
}
#define KIND(NAME, Q) PBT_PROP(NAME##_threads, Q, Q * 20, "three or more threads") { concurrently(s, { { #NAME, NAME } }); }
KIND(parse, 300)
KIND(constants, 500)
KIND(files, 300)
KIND(paths, 400)
KIND(loggers, 500)
KIND(algos, 300)
KIND(c_interface, 400)
PBT_PROP(mixed_threads, 500, 10000, "three or more threads") { concurrently(s, everything); }
// the first use of everything, by all threads at once, in a process of its own
PBT_PROP_ISOLATED(first_use, 200, 4000, "three or more threads")
{
  algorithm_plugin_manager* m[4] = {}; logger_handle_t l[4]; std::string p[4]; size_t n = static_cast<size_t>(s.range(2, 4)); std::atomic<size_t> ready(0); std::vector<std::thread> th; bool all_ = s.flip(), load = s.flip(); int loaded = 0; std::atomic<int> count(0);
  if (n > 2) s.nontrivial(); setenv("KWIVER_PLUGIN_PATH", "/nowhere", 1);
  for (size_t i = 0; i < n; ++i) th.emplace_back([&, i]() { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield(); if (all_ || i % 2) m[i] = &algorithm_plugin_manager::instance(); l[i] = get_logger("first"); p[i] = get_executable_path() + get_module_path() + vital_config_block_block_sep()->str + vital_config_block_global_value()->str; if (load && algorithm_plugin_manager::load_plugins_once()) ++count; });
  for (auto& t : th) t.join();
  loaded = count; REQUIRE_EQ(loaded, load ? 1 : 0, "plugins loaded once");
  for (size_t i = 0; i < n; ++i) { REQUIRE(!m[i] || m[i] == &algorithm_plugin_manager::instance(), "one plugin manager"); REQUIRE(l[i] == get_logger("first"), "one logger of a name"); REQUIRE_EQ(p[i], p[0], "paths"); }
}
