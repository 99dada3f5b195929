// Cell value quantisation: explicit-state exploration of every 16-bit cell
// value under every update table.
#include <cmath>

#include "mc.h"
#include "cartographer/mapping/probability_values.h"
#include "cartographer/mapping/value_conversion_tables.h"

using namespace cartographer::mapping;
using cartographer::uint16;

namespace {

constexpr double kQuantum = (0.9 - 0.1) / 32766.;

double RefProbability(int v) { return 0.1 + (v - 1) * kQuantum; }

// All stored values: decode, encode, marker transparency, order.
void Codec() {
  const int block = mc::choose(64);
  for (int v = block * 512; v < (block + 1) * 512; ++v) {
    mc::step();
    mc::visit(v + 1);
    for (int marker : {0, 32768}) {
      const float p = ValueToProbability(v + marker);
      const float c = ValueToCorrespondenceCost(v + marker);
      MC_CHECK(p >= kMinProbability - 1e-6 && p <= kMaxProbability + 1e-6,
               "value " << v << " decodes to probability " << p);
      MC_CHECK(c >= kMinCorrespondenceCost - 1e-6 &&
                   c <= kMaxCorrespondenceCost + 1e-6,
               "value " << v << " decodes to cost " << c);
      if (v == 0) {
        MC_CHECK(std::abs(p - 0.1) < 1e-6, "unknown cell has probability " << p);
        MC_CHECK(std::abs(c - 0.9) < 1e-6, "unknown cell has cost " << c);
        continue;
      }
      MC_CHECK(std::abs(p - RefProbability(v)) < 0.25 * kQuantum,
               "value " << v << " decodes to " << p);
      MC_CHECK(std::abs(c - RefProbability(v)) < 0.25 * kQuantum,
               "value " << v << " decodes to cost " << c);
      MC_CHECK(ProbabilityToValue(p) == v, "probability round trip of " << v
                                           << " gives " << ProbabilityToValue(p));
      MC_CHECK(CorrespondenceCostToValue(c) == v,
               "cost round trip of " << v << " gives "
                                     << CorrespondenceCostToValue(c));
    }
    if (v == 0) {
      MC_CHECK(ProbabilityValueToCorrespondenceCostValue(0) == 0, "unknown");
      MC_CHECK(CorrespondenceCostValueToProbabilityValue(0) == 0, "unknown");
      continue;
    }
    for (int marker : {0, 32768}) {
      const int cv = ProbabilityValueToCorrespondenceCostValue(v + marker);
      const int pv = CorrespondenceCostValueToProbabilityValue(v + marker);
      // p + c == 1, i.e. the quantised values mirror each other.
      MC_CHECK(cv == 32768 - v + marker, "probability value " << v + marker
                                         << " converts to cost value " << cv);
      MC_CHECK(pv == 32768 - v + marker, "cost value " << v + marker
                                         << " converts to probability value " << pv);
    }
    if (v > 1) {
      MC_CHECK(ValueToProbability(v) > ValueToProbability(v - 1), "order at " << v);
      MC_CHECK(ValueToCorrespondenceCost(v) > ValueToCorrespondenceCost(v - 1),
               "order at " << v);
    }
    // Encoding picks the nearest value, saturating outside of the range.
    for (double f : {-0.4, -0.2, 0.2, 0.4}) {
      const double q = RefProbability(v) + f * kQuantum;
      MC_CHECK(ProbabilityToValue(q) == v, "encoding " << q);
      MC_CHECK(CorrespondenceCostToValue(q) == v, "encoding " << q);
    }
  }
  for (float p : {-10.f, 0.f, 0.05f, 0.0999f}) {
    MC_CHECK(ProbabilityToValue(p) == 1 && CorrespondenceCostToValue(p) == 1,
             "saturation at " << p);
  }
  for (float p : {0.9001f, 0.95f, 1.f, 10.f}) {
    MC_CHECK(ProbabilityToValue(p) == 32767 &&
                 CorrespondenceCostToValue(p) == 32767,
             "saturation at " << p);
  }
}

const std::vector<double> kProbabilities = {0.1,  0.12, 0.2,  0.3,  0.4,   0.45,
                                            0.49, 0.501, 0.55, 0.6, 0.7,  0.8,
                                            0.88, 0.9,  0.02, 0.97};

// Every update table entry: transition relation of a cell.
void Tables() {
  const double hit = mc::pick(kProbabilities);
  const bool cost = mc::flip();
  const float odds = Odds(static_cast<float>(hit));
  const std::vector<uint16> table =
      cost ? ComputeLookupTableToApplyCorrespondenceCostOdds(odds)
           : ComputeLookupTableToApplyOdds(odds);
  MC_CHECK(table.size() == 32768, "table size " << table.size());
  for (int v = 0; v < 32768; ++v) {
    mc::step();
    MC_CHECK(table[v] > kUpdateMarker, "entry " << v << " of odds " << odds
                                       << " lacks the update marker or a value");
    const int next = table[v] - kUpdateMarker;
    // Reference: Bayes update in the odds domain with clamping.
    double p_next;
    if (v == 0) {
      p_next = hit;
    } else {
      const double p = cost ? 1. - RefProbability(v) : RefProbability(v);
      const double o = hit / (1. - hit) * p / (1. - p);
      p_next = o / (1. + o);
    }
    const double stored = cost ? 1. - p_next : p_next;
    const double clamped = std::min(0.9, std::max(0.1, stored));
    MC_CHECK(std::abs(RefProbability(next) - clamped) < 1.01 * kQuantum,
             "odds " << odds << " maps " << v << " to " << next << ", expected "
                     << clamped);
    if (v > 0) {
      // Hits never lower and misses never raise the occupancy.
      const int delta = cost ? v - next : next - v;
      if (hit > 0.505) MC_CHECK(delta >= 0, "hit lowers " << v << " to " << next);
      if (hit < 0.495) MC_CHECK(delta <= 0, "miss raises " << v << " to " << next);
    }
    if (v > 1) {
      MC_CHECK(next >= table[v - 1] - kUpdateMarker, "table not monotone at " << v);
    }
    mc::visit(mc::Hash(v, next));
  }
}

// All values reachable from "unknown" by any sequence of hits and misses:
// the two representations (probability, correspondence cost) stay mirror
// images of each other and repeated hits/misses converge to the bounds.
void Sequences() {
  const double hit = mc::pick<double>({0.51, 0.55, 0.62, 0.7, 0.9});
  const double miss = mc::pick<double>({0.49, 0.4, 0.3, 0.12});
  const auto hp = ComputeLookupTableToApplyOdds(Odds(hit));
  const auto mp = ComputeLookupTableToApplyOdds(Odds(miss));
  const auto hc = ComputeLookupTableToApplyCorrespondenceCostOdds(Odds(hit));
  const auto mcst = ComputeLookupTableToApplyCorrespondenceCostOdds(Odds(miss));
  // Explicit-state search over all sequences of bounded length.
  const int depth = mc::thorough() ? 18 : 13;
  std::vector<std::pair<int, int>> frontier = {{0, 0}};
  std::vector<double> reference = {0.};
  for (int d = 0; d < depth; ++d) {
    std::vector<std::pair<int, int>> next;
    std::vector<double> next_reference;
    std::vector<char> seen(32768, 0);
    for (size_t i = 0; i < frontier.size(); ++i) {
      for (int op = 0; op < 2; ++op) {
        mc::step();
        const int p = (op ? mp : hp)[frontier[i].first] - kUpdateMarker;
        const int c = (op ? mcst : hc)[frontier[i].second] - kUpdateMarker;
        const int mirrored = 32768 - c;
        MC_CHECK(std::abs(mirrored - p) <= d + 2,
                 "probability and cost representation drift apart: " << p << " vs "
                                                                     << mirrored);
        if (!seen[p]) {
          seen[p] = 1;
          next.push_back({p, c});
          mc::visit(mc::Hash(mc::Hash(p, c), 7));
        }
      }
    }
    frontier = next;
  }
  int v = 0, w = 0;
  for (int i = 0; i < 300; ++i) {
    v = hp[v] - kUpdateMarker;
    w = mp[w] - kUpdateMarker;
    mc::step(2);
  }
  MC_CHECK(v == 32767, "repeated hits converge to " << v);
  MC_CHECK(w == 1, "repeated misses converge to " << w);
}

// The generic conversion tables: same codec for arbitrary bounds, one shared
// table per distinct (unknown, lower, upper) triple.
void GenericTables() {
  struct B {
    float u, l, h;
  };
  const std::vector<B> bounds = {{0.9f, 0.1f, 0.9f}, {0.f, 0.f, 1.f},
                                 {-0.3f, -0.3f, 0.3f}, {0.3f, -0.3f, 0.3f},
                                 {0.f, 0.f, 10.f}, {0.1f, 0.1f, 0.9f}};
  const int first = mc::choose(bounds.size());
  const int second = mc::choose(bounds.size());
  ValueConversionTables tables;
  const auto* a = tables.GetConversionTable(bounds[first].u, bounds[first].l,
                                            bounds[first].h);
  const auto* b = tables.GetConversionTable(bounds[second].u, bounds[second].l,
                                            bounds[second].h);
  const auto* c = tables.GetConversionTable(bounds[first].u, bounds[first].l,
                                            bounds[first].h);
  MC_CHECK(*a == *c, "table changes between requests");
  const std::vector<float>* t[2] = {a, b};
  const B bb[2] = {bounds[first], bounds[second]};
  for (int k = 0; k < 2; ++k) {
    MC_CHECK(t[k]->size() == 65536, "size");
    const double q = (double(bb[k].h) - bb[k].l) / 32766.;
    for (int v = 0; v < 32768; ++v) {
      mc::step();
      const double expected = v == 0 ? bb[k].u : bb[k].l + (v - 1) * q;
      const double tolerance = 0.25 * q;
      MC_CHECK(std::abs((*t[k])[v] - expected) < tolerance,
               "value " << v << " -> " << (*t[k])[v] << ", expected " << expected);
      MC_CHECK((*t[k])[v + 32768] == (*t[k])[v], "marker changes value " << v);
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv,
                  {{"codec", Codec, 3, UINT64_MAX, "all 65536 cell values"},
                   {"tables", Tables, 3, UINT64_MAX,
                    "16 odds x 2 representations x all 32768 cell values"},
                   {"sequences", Sequences, 3, UINT64_MAX,
                    "20 (hit, miss) pairs, all hit/miss sequences up to length 13 "
                    "(18 thorough), 300 repetitions"},
                   {"generic_tables", GenericTables, 3, UINT64_MAX,
                    "36 ordered pairs of bounds x all 65536 values"}},
                  {"explicit-state",
                   {"probabilities compared with tolerance of one quantum"}});
}
