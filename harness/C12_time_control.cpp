// @bounds any start and end time in [-20,20] (end later than start), up to 4 steps with arbitrary different requested increments, constant increments up to 5 steps, up to 3 equilibrium iterations per step
// @outside rounding of double arithmetic (time is an exact real); more steps
#include "symx.h"
#include "testel.h"
using namespace tst;
static void lim(TimeControl& t, double& s, double& e, bool def) { if (def) { s = 0; e = 1; } else { s = symD("start", -20, 20); e = symD("end", -20, 20); assume(e > s + 0.001); if (pickB("endfirst")) { t.setEndTime(e); t.setStartTime(s); } else { t.setStartTime(s); t.setEndTime(e); } } EQ(t.getStartTime(), s, "start time"); EQ(t.getEndTime(), e, "end time"); }
HARNESS(steps) { TimeControl t; double s, e; lim(t, s, e, pickB("default")); double cur = s; int conv = 0, total = 0; CK(t.getCurrentStep() == 1 && t.getNumberOfConvergedSteps() == 0 && t.getTotalNumberOfEquilibriumSteps() == 0, "initial state"); EQ(t.getCurrentTime(), s, "time starts at the start time"); EQ(t.getCurrentNormalizedTime(), 0, "normalised time starts at zero");
  for (int k = 0; k < (THOROUGH ? 5 : 4); k++) { double d = symD("d", 0.001, 30); double c0 = t.getCurrentTime(); bool more = t.nextStep(d); if (k) conv++; CK(t.getNumberOfConvergedSteps() == conv && t.getCurrentStep() == conv + 1, "a step that made iterations counts as converged at the next one"); CK(more == (c0 < e), "steps continue exactly until the end time"); if (!more) { EQ(t.getCurrentTime(), e, "the analysis stops exactly at the end time"); EQ(t.getCurrentNormalizedTime(), 1, "normalised end"); CK(!t.nextStep(d), "no step after the end"); REACH("end"); return; }
    double c = t.getCurrentTime(); CK(c > c0, "time increases"); CK(c <= e, "time never passes the end"); CK(c - c0 <= d, "the step is never longer than requested"); if (e - c0 > 2 * d) EQ(c - c0, d, "the step is the requested one while two of them fit"); if (e - c0 <= d) EQ(c, e, "the last step lands on the end");
    if ((e - c0 > d) & (e - c0 <= 2 * d)) EQ(c - c0, (e - c0) / 2, "the rest is split evenly instead of leaving a small last step"); EQ(t.getCurrentNormalizedTime() * (e - s), c - s, "normalised time"); CK(t.getCurrentEquilibriumStep() == 0, "equilibrium counter restarts"); EQ(t.getCurrentTimeDelta(), 0, "no increment before the first iteration"); int n = pickU("n", 1, k < 2 ? 2 : 1); for (int i = 1; i <= n; i++) { t.nextEquilibriumStep(); total++; CK(t.getCurrentEquilibriumStep() == i && t.getTotalNumberOfEquilibriumSteps() == total, "iteration counters"); EQ(t.getCurrentTimeDelta(), i == 1 ? c - c0 : 0.0, "the increment is applied in the first iteration only"); EQ(t.getCurrentNormalizedTimeDelta() * (e - s), i == 1 ? c - c0 : 0.0, "normalised increment"); EQ(t.getCurrentTime(), c, "iterations do not move time"); } } REACH("more"); }
HARNESS(constant) { TimeControl t; double s, e; lim(t, s, e, false); double d = symD("d", 0.001, 40); int m = THOROUGH ? 7 : 5; assume(m * d >= e - s); int n = 0; while (t.nextStep(d)) { t.nextEquilibriumStep(); n++; CK(n <= m, "number of steps"); if (n > m) return; } CK((n * d >= e - s) & ((n - 1) * d < e - s), "a constant increment takes the least possible number of steps"); EQ(t.getCurrentTime(), e, "ends at the end time"); CK(t.getNumberOfConvergedSteps() == n, "converged steps"); REACH("end"); }
// a step without iterations is not counted as converged
HARNESS(no_iterations) { TimeControl t; double d = symD("d", 0.001, 0.24); t.nextStep(d); t.nextStep(d); CK(t.getNumberOfConvergedSteps() == 0, "steps without iterations do not count"); t.nextEquilibriumStep(); t.nextStep(d); CK(t.getNumberOfConvergedSteps() == 1, "one converged"); EQ(t.getCurrentTime(), 3 * d, "time"); REACH("end"); }
