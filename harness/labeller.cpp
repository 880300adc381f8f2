// Named ranges of the stacked state, control and constraint vectors: values written by name, range or index are found again
// by every other way of addressing them, whatever the history of labels.
#include <dpcommon.h>
#include <DynamicalPlannerPrivate/Utilities/VariablesLabeller.h>
#include <cstdlib>
#include <new>
// memory handed out is never zero by accident
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) std::abort(); std::memset(p, 0x41, n); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
using namespace dp; using iDynTree::IndexRange;
static void body() {
    DynamicalPlanner::Private::VariablesLabeller l;
    const char* names[4] = {"LeftForcePoint0", "LeftForcePoint1", "CoM", "Joints"};
    const int dims[4] = {1, 3, 4, 0};
    bool cleared = sym::choose("cleared", 2) == 1; if (cleared) { l.addLabel("CoM", 2); l.addLabel("other", 5); l(0) = 7; l.clear(); sym::fact("nothing left after clear", l.size() == 0 && l.numberOfLabels() == 0 && l.listOfLabels().empty() && !l.getIndexRange("CoM").isValid()); }
    int n = 1 + sym::choose("labels", 3); bool keep = sym::choose("values_between", 2) == 1;
    std::vector<int> off, dim; int total = 0; std::vector<double> v;
    for (int k = 0; k < n; ++k) {
        int d = dims[sym::choose("size" + S(k), 4)]; bool range = (k + (cleared ? 1 : 0)) % 2 == 1;
        if (range) { IndexRange r = l.addLabelAndGetIndexRange(names[k], (size_t) d); sym::fact("new range", r.isValid() && r.offset == total && r.size == d); }
        else sym::fact("new label accepted", l.addLabel(names[k], (size_t) d));
        off.push_back(total); dim.push_back(d); total += d;
        sym::fact("size", (int) l.size() == total);
        for (int i = 0; i < d; ++i) sym::eq("new variables start at zero " + S(k), l((unsigned) (off[k] + i)), 0.0);
        for (int i = 0; i < (int) v.size(); ++i) sym::eq("earlier variables keep their values " + S(k), l((unsigned) i), v[i]);
        if (keep) for (int i = 0; i < d; ++i) { double x = sym::var("value" + S((int) v.size()), 0.25 * v.size() - 0.5, -100, 100); l((unsigned) (off[k] + i)) = x; v.push_back(x); }
        else for (int i = 0; i < d; ++i) v.push_back(0.0);
        // the same name again is refused and changes nothing
        bool refused = range ? !l.addLabelAndGetIndexRange(names[k], 2).isValid() : !l.addLabel(names[k], 2);
        sym::fact("duplicated label refused", refused && (int) l.size() == total && (int) l.numberOfLabels() == k + 1 && l.getIndexRange(names[k]).size == d);
    }
    sym::fact("labels in order of insertion", l.listOfLabels().size() == (size_t) n); for (int k = 0; k < n; ++k) sym::fact("label " + S(k), l.listOfLabels()[k] == names[k]);
    sym::fact("unknown label", !l.getIndexRange("unknown").isValid() && l("unknown").size() == 0);
    // write by one way of addressing, read by all the others
    int how = sym::choose("write", 4); std::vector<double> w(total); for (int i = 0; i < total; ++i) w[i] = sym::var("new" + S(i), 0.5 - 0.125 * i, -100, 100);
    if (how == 0) { VectorDynSize x((unsigned) total); for (int i = 0; i < total; ++i) x((unsigned) i) = w[i]; l = x; }
    if (how == 1) for (int k = 0; k < n; ++k) { auto s = l(std::string(names[k])); sym::fact("span of the label", (int) s.size() == dim[k]); for (int i = 0; i < dim[k]; ++i) s[i] = w[off[k] + i]; }
    if (how == 2) for (int k = 0; k < n; ++k) { auto s = l(l.getIndexRange(names[k])); sym::fact("span of the range", (int) s.size() == dim[k]); for (int i = 0; i < dim[k]; ++i) s[i] = w[off[k] + i]; }
    if (how == 3) for (int i = 0; i < total; ++i) l((unsigned) i) = w[i];
    const auto& c = l; sym::fact("all values", (int) c.values().size() == total && (int) l.values().size() == total);
    for (int i = 0; i < total; ++i) { sym::eq("value by position " + S(i), c.values()[i], w[i]); sym::eq("value by index " + S(i), c((unsigned) i), w[i]); }
    for (int k = 0; k < n; ++k) { auto s = c(std::string(names[k])); auto r = c(l.getIndexRange(names[k])); sym::fact("sizes of the spans", (int) s.size() == dim[k] && (int) r.size() == dim[k]);
        for (int i = 0; i < dim[k]; ++i) { sym::eq("value by label " + S(k) + S(i), s[i], w[off[k] + i]); sym::eq("value by range " + S(k) + S(i), r[i], w[off[k] + i]); } }
    l.zero(); for (int i = 0; i < total; ++i) sym::eq("zero " + S(i), l((unsigned) i), 0.0);
    sym::reach("labels " + S(n));
}
int main(int argc, char** argv) { return sym::run(argc, argv, body); }
