//@ time=200,800 parts=k:6
//# Quantisation of probabilities and correspondence costs: range, monotonicity, bounded error, table lookups, stable round trip, complementary conversions.
//b all finite floats for the encoders; all 65536 stored values for the decoders
#include "symx.h"
#include "cartographer/mapping/probability_values.h"
#include "cartographer/mapping/value_conversion_tables.h"
#include <cmath>
using namespace cartographer;
using namespace cartographer::mapping;
extern "C" void symx_main() {
  const int k = symx_choose("k", 6);
  if (k == 0) {
    const float p = symx_f32("p");
    symx_assume(p == p);
    const uint16 v = ProbabilityToValue(p), c = CorrespondenceCostToValue(p);
    symx_assert(v >= 1 && v <= 32767, "encoded probability is in 1..32767");
    symx_assert(c >= 1 && c <= 32767, "encoded cost is in 1..32767");
    symx_assert(!(p <= 0.1f) || v == 1, "everything at or below the lower bound encodes to 1");
    symx_assert(!(p >= 0.9f) || v == 32767, "everything at or above the upper bound encodes to 32767");
    symx_observe("v", v); symx_observe("c", c);
  } else if (k == 1) {
    const float p = symx_f32_range("p", -8.f, 8.f), q = symx_f32_range("q", -8.f, 8.f);
    symx_assume(p <= q);
    symx_assert(ProbabilityToValue(p) <= ProbabilityToValue(q), "probability encoding is monotone");
    symx_assert(CorrespondenceCostToValue(p) <= CorrespondenceCostToValue(q), "cost encoding is monotone");
  } else if (k == 2) {
    const uint16 v = symx_u16("v");
    const float p = ValueToProbability(v), c = ValueToCorrespondenceCost(v);
    symx_assert(p >= kMinProbability - 1e-6f && p <= kMaxProbability + 1e-6f, "decoded probability in bounds");
    symx_assert(c >= kMinCorrespondenceCost - 1e-6f && c <= kMaxCorrespondenceCost + 1e-6f, "decoded cost in bounds");
    symx_assert(ValueToProbability(v & 32767) == p && ValueToCorrespondenceCost(v & 32767) == c, "the update marker does not change the decoded value");
    if ((v & 32767) == 0) symx_assert(p == kMinProbability && c == kMaxCorrespondenceCost, "unknown decodes to the neutral bound");
    symx_observe_f("p", p);
  } else if (k == 3) {
    const uint16 v = symx_u16("v");
    symx_assume(v >= 1 && v <= 32767);
    symx_assert(ProbabilityToValue(ValueToProbability(v)) == v, "decoding and re-encoding a probability is the identity");
    symx_assert(CorrespondenceCostToValue(ValueToCorrespondenceCost(v)) == v, "decoding and re-encoding a cost is the identity");
  } else if (k == 4) {
    const uint16 v = symx_u16("v");
    symx_assume(v != 32768);
    const uint16 c = ProbabilityValueToCorrespondenceCostValue(v);
    symx_assert(((c ^ v) & 32768) == 0, "conversion keeps the update marker");
    symx_assert((c == 0) == (v == 0), "unknown converts to unknown only");
    if (v) symx_assert((c & 32767) + (v & 32767) == 32768, "probability and cost values are complementary");
    symx_assert(CorrespondenceCostValueToProbabilityValue(c) == v, "value conversion is its own inverse");
  } else {
    // Generic conversion tables agree with the built-in ones.
    ValueConversionTables tables;
    const std::vector<float>* t = tables.GetConversionTable(kMaxCorrespondenceCost, kMinCorrespondenceCost, kMaxCorrespondenceCost);
    symx_assert(t == tables.GetConversionTable(kMaxCorrespondenceCost, kMinCorrespondenceCost, kMaxCorrespondenceCost), "a table is built once per bounds");
    const std::vector<float>* u = tables.GetConversionTable(-1.f, -1.f, 1.f);
    symx_assert(t != u && t->size() == 65536 && u->size() == 65536, "tables cover every stored value");
    const std::vector<float>*n = tables.GetConversionTable(-3.f, -1.f, 1.f), *w = tables.GetConversionTable(-1.f, -1.f, 2.f), *l = tables.GetConversionTable(-1.f, -2.f, 1.f);
    symx_assert(n != u && w != u && l != u && (*n)[0] == -3.f && (*u)[0] == -1.f && (*n)[1] == (*u)[1] && (*w)[32767] > 1.9f && (*l)[1] < -1.9f, "tables are kept apart by bounds and by the value for unknown cells");
    const uint16 v = symx_u16("v");
    symx_assert((*t)[v] == ValueToCorrespondenceCost(v), "conversion table agrees with the built-in table");
    symx_assert((*u)[v] == (*u)[v & 32767] && (*u)[v] >= -1.00001f && (*u)[v] <= 1.00001f, "custom table ignores the marker and respects its bounds");
  }
  symx_reach("end");
}
