// Witness translation unit: instantiates every template and macro of
// Yaml-Serializable that a user can reach, so that the extractor sees the real,
// resolved code.  It is never linked into anything and never executed.
#include "yaml-serializable.h"
#include <array>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

SERIALIZABLE_ENUM(WColor, Red, Green, Blue)

// plain struct, every kind of field
struct WInner { int leaf; std::string text; };
IMPL_YAML_SERIALIZABLE_FOR(WInner, leaf, text)

struct WPlain {
  int i; double d; bool b; std::string s; WColor c; WInner in;
};
IMPL_YAML_SERIALIZABLE_FOR(WPlain, i, d, b, s, c, in)

struct WContainers {
  std::vector<int> v;
  std::vector<WInner> vs;
  std::set<std::string> st;
  std::optional<int> o;
  std::shared_ptr<WInner> sp;
  std::unique_ptr<WInner> up;
  int fixed[3];
  std::array<double, 2> arr;
};
IMPL_YAML_SERIALIZABLE_FOR(WContainers, v, vs, st, o, sp, up, fixed, arr)

struct WEmpty {};
IMPL_YAML_SERIALIZABLE_FOR(WEmpty)

// hooks and required fields
struct WHooks : Yaml::DerivedFields, Yaml::ValidatedYaml {
  int req; int opt;
  void derive();
  void validate();
};
YAML_ADD_REQUIRED_FIELDS_FOR(WHooks, req)
IMPL_YAML_SERIALIZABLE_FOR(WHooks, req, opt)

struct WOwnHooks : WHooks {
  int own;
  void derive();
  void validate();
};
YAML_ADD_REQUIRED_FIELDS_FOR(WOwnHooks, own)
IMPL_YAML_SERIALIZABLE_WITH_BASE(WOwnHooks, WHooks, own)

struct WInheritedHooks : WHooks { int own2; };
IMPL_YAML_SERIALIZABLE_WITH_BASE(WInheritedHooks, WHooks, own2)

struct WNoHookBase { int nb; };
IMPL_YAML_SERIALIZABLE_FOR(WNoHookBase, nb)
struct WHookOnlyDerived : WNoHookBase, Yaml::DerivedFields, Yaml::ValidatedYaml {
  int hd;
  void derive();
  void validate();
};
IMPL_YAML_SERIALIZABLE_WITH_BASE(WHookOnlyDerived, WNoHookBase, hd)

struct WBaseOnly : WHooks {};
IMPL_YAML_SERIALIZABLE_WITH_BASE(WBaseOnly, WHooks)

// type discrimination
SERIALIZABLE_ENUM(WKind, KA, KB, KC)
struct WBase : Yaml::TypeDiscriminated<WBase, WKind> { int common; };
YAML_ADD_REQUIRED_FIELDS_FOR(WBase, type)
IMPL_YAML_SERIALIZABLE_FOR(WBase, type, common)
struct WDerivedA : WBase::Register<WDerivedA, WKind::KA> { int a; };
IMPL_YAML_SERIALIZABLE_WITH_BASE(WDerivedA, WBase, a)
struct WDerivedB : WBase::Register<WDerivedB, WKind::KB> { int b; };
YAML_ADD_REQUIRED_FIELDS_FOR(WDerivedB, b)
IMPL_YAML_SERIALIZABLE_WITH_BASE(WDerivedB, WBase, b)
struct WDerivedC : WBase::Register<WDerivedC, WKind::KC>, Yaml::DerivedFields, Yaml::ValidatedYaml {
  int c;
  void derive();
  void validate();
};
IMPL_YAML_SERIALIZABLE_WITH_BASE(WDerivedC, WBase, c)
struct WHolder {
  std::shared_ptr<WBase> sp;
  std::unique_ptr<WBase> up;
  std::vector<std::shared_ptr<WBase>> many;
};
IMPL_YAML_SERIALIZABLE_FOR(WHolder, sp, up, many)

// one struct per kind of member, so that every path through one kind is enumerated
#define W1(NAME, TYPE) struct NAME { TYPE x; }; IMPL_YAML_SERIALIZABLE_FOR(NAME, x)
struct WLeaf : Yaml::DerivedFields, Yaml::ValidatedYaml {
  int req; int leaf;
  void derive();
  void validate();
};
YAML_ADD_REQUIRED_FIELDS_FOR(WLeaf, req)
IMPL_YAML_SERIALIZABLE_FOR(WLeaf, req, leaf)
W1(WVecInt, std::vector<int>)
W1(WVecLeaf, std::vector<WLeaf>)
W1(WVecVec, std::vector<std::vector<int>>)
W1(WSetStr, std::set<std::string>)
W1(WOptInt, std::optional<int>)
W1(WOptLeaf, std::optional<WLeaf>)
W1(WSp, std::shared_ptr<WLeaf>)
W1(WUp, std::unique_ptr<WLeaf>)
W1(WSpPoly, std::shared_ptr<WBase>)
W1(WUpPoly, std::unique_ptr<WBase>)
W1(WVecPoly, std::vector<std::shared_ptr<WBase>>)
// a polymorphic family whose base class has hooks
SERIALIZABLE_ENUM(WHKind, HP, HO)
struct WHBase : Yaml::TypeDiscriminated<WHBase, WHKind>, Yaml::DerivedFields, Yaml::ValidatedYaml {
  int hcommon;
  void derive();
  void validate();
};
IMPL_YAML_SERIALIZABLE_FOR(WHBase, type, hcommon)
struct WHPlain : WHBase::Register<WHPlain, WHKind::HP> { int hp; };
IMPL_YAML_SERIALIZABLE_WITH_BASE(WHPlain, WHBase, hp)
struct WHOwn : WHBase::Register<WHOwn, WHKind::HO> {
  int ho;
  void derive();
  void validate();
};
IMPL_YAML_SERIALIZABLE_WITH_BASE(WHOwn, WHBase, ho)
W1(WSpH, std::shared_ptr<WHBase>)
W1(WUpH, std::unique_ptr<WHBase>)
struct WFix { int x[3]; };
IMPL_YAML_SERIALIZABLE_FOR(WFix, x)
struct WArr { std::array<double, 2> x; };
IMPL_YAML_SERIALIZABLE_FOR(WArr, x)
struct WFixLeaf { WLeaf x[2]; };
IMPL_YAML_SERIALIZABLE_FOR(WFixLeaf, x)
W1(WEnum, WColor)
W1(WBool, bool)
W1(WLeafIn, WLeaf)
struct WMid { WLeaf inner; std::vector<WLeaf> list; };
IMPL_YAML_SERIALIZABLE_FOR(WMid, inner, list)
struct WOuter { WMid mid; std::vector<WMid> mids; };
IMPL_YAML_SERIALIZABLE_FOR(WOuter, mid, mids)
// three levels of inheritance, hooks at the top, middle and bottom
struct WL2 : WOwnHooks { int l2; void derive(); void validate(); };
YAML_ADD_REQUIRED_FIELDS_FOR(WL2, l2)
IMPL_YAML_SERIALIZABLE_WITH_BASE(WL2, WOwnHooks, l2)
struct WVirtBase { int vb; };
IMPL_YAML_SERIALIZABLE_FOR(WVirtBase, vb)
struct WVirt : virtual WVirtBase { int vd; };
IMPL_YAML_SERIALIZABLE_WITH_BASE(WVirt, WVirtBase, vd)

void w_single(const std::string &s, WVecInt &a, WVecLeaf &b, WVecVec &c, WSetStr &d, WOptInt &e, WOptLeaf &f,
              WSp &g, WUp &h, WSpPoly &i, WUpPoly &j, WVecPoly &k, WFix &l, WArr &m, WFixLeaf &n, WEnum &o,
              WBool &p, WLeafIn &q, WOuter &r, WL2 &t, WVirt &u, WSpH &w, WUpH &x) {
  Yaml::from_string_strict(s, w, x);
  Yaml::from_string_strict(s, a, b, c, d, e, f);
  Yaml::from_string_strict(s, g, h, i, j, k, l, m, n);
  Yaml::from_string_strict(s, o, p, q, r, t, u);
}

// every public entry point
void w_entry(const std::string &s, WHooks &h, WHolder &ho, WPlain &p, WContainers &co,
             WOwnHooks &oh, WInheritedHooks &ih, WHookOnlyDerived &hd, WEmpty &e, WBaseOnly &bo) {
  (void)Yaml::to_string(p);
  (void)Yaml::to_string(p, co, h);
  (void)Yaml::from_string<WPlain>(s);
  (void)Yaml::from_string_strict<WPlain>(s);
  (void)Yaml::from_file<WPlain>(s);
  (void)Yaml::from_file_strict<WPlain>(s);
  (void)Yaml::from_string<WHooks>(s);
  (void)Yaml::from_string_strict<WHooks>(s);
  (void)Yaml::from_file<WHooks>(s);
  (void)Yaml::from_file_strict<WHooks>(s);
  Yaml::from_string(s, p, h, ho);
  Yaml::from_string_strict(s, p, h, ho);
  Yaml::from_file(s, p, h, ho);
  Yaml::from_file_strict(s, p, h, ho);
  Yaml::from_string(s, p, h);
  Yaml::from_string_strict(s, p, h);
  Yaml::from_file(s, p, h);
  Yaml::from_file_strict(s, p, h);
  Yaml::from_string(s, co, oh, ih, hd, e, bo);
  Yaml::from_string_strict(s, co, oh, ih, hd, e, bo);
  (void)Yaml::validate_filepath(s);
  (void)Yaml::validate_value(s, {"x"});
}
struct WHandlerNone { void operator()() const; };
struct WHandlerA { void operator()(WDerivedA &) const; };
struct WHandlerBPtr { void operator()(WDerivedB *) const; };
void w_dispatch(WBase &b) {
  WHandlerA ha; WHandlerBPtr hb; WHandlerNone hn;
  b.apply(ha, hb);
  b.apply(ha);
  (void)b.try_apply(ha, hb);
  (void)b.try_apply(hb, ha);
  b.apply(ha, hb, [&](WBase &) {});
  (void)b.try_apply(ha, hb, hn);
  (void)b.try_apply(ha);
}

// dispatch on the dynamic type, one call per function
struct WHandlerBase { void operator()(WBase &) const; };
bool w_try_ab(WBase &b, WHandlerA &ha, WHandlerBPtr &hb) { return b.try_apply(ha, hb); }
bool w_try_ba(WBase &b, WHandlerA &ha, WHandlerBPtr &hb) { return b.try_apply(hb, ha); }
bool w_try_abn(WBase &b, WHandlerA &ha, WHandlerBPtr &hb, WHandlerNone &hn) { return b.try_apply(ha, hb, hn); }
bool w_try_base(WBase &b, WHandlerBase &h0, WHandlerA &ha) { return b.try_apply(h0, ha); }
bool w_try_a(WBase &b, WHandlerA &ha) { return b.try_apply(ha); }
void w_apply_ab(WBase &b, WHandlerA &ha, WHandlerBPtr &hb) { b.apply(ha, hb); }
void w_apply_a(WBase &b, WHandlerA &ha) { b.apply(ha); }
void w_apply_b(WBase &b, WHandlerBPtr &hb) { b.apply(hb); }

// value validation helpers
std::string w_value(const std::string &v, const std::set<std::string> &allowed) { return Yaml::validate_value(v, allowed, "f"); }
int w_map(const std::string &v, std::map<std::string, int> &m) { return Yaml::validate_map(v, m); }
std::string w_path(const std::string &p) { return Yaml::validate_filepath(p); }
void w_from_name(const std::string &s, WColor &c) { from_string(s, c); }
std::string w_name(const WColor &c) { return to_string(c); }
