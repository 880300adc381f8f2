W = {'basecon': ['quaternion norm', 'relative height'],
 'contactd': ['classical complementarity', 'dynamical complementarity', 'friction cone', 'normal force derivative limit', 'normal velocity limit', 'planar complementarity', 'planar velocity limit'],
 'contactv': ['classical complementarity', 'dynamical complementarity', 'friction cone', 'normal force derivative limit', 'normal velocity limit', 'planar complementarity', 'planar velocity limit'],
 'costs': ['complementarity cost',
           'feet distance cost',
           'foot yaw cost',
           'force mean cost',
           'force ratio cost',
           'joints velocity postural cost',
           'mean point position cost',
           'phantom forces cost',
           'swing cost'],
 'costsv': ['complementarity cost',
            'feet distance cost',
            'foot yaw cost',
            'force mean cost',
            'force ratio cost',
            'joints velocity postural cost',
            'mean point position cost',
            'phantom forces cost',
            'swing cost'],
 'labeller': ['labels 1', 'labels 2', 'labels 3'],
 'posref': ['active', 'any time', 'instant', 'none active'],
 'rectfoot': ['active corners 1', 'active corners 2', 'active corners 4', 'corners', 'inside', 'no pressure', 'on or outside', 'rejected'],
 'smooth': ['exponential weight', 'hyperbolic secant', 'hyperbolic tangent'],
 'statecontrol': ['left', 'no points', 'right', 'zero'],
 'walking': ['accepted', 'next step', 'not loaded yet', 'refused', 'step planned', 'step planned after waiting', 'too early', 'waiting']}
def private(names): return ["private/" + x + ".cpp" for x in names.split()]
CONTACT = private("DynamicalComplementarityConstraint ClassicalComplementarityConstraint ClassicalPlanarComplementarityConstraint ContactForceControlConstraints NormalVelocityControlConstraints PlanarVelocityControlConstraints ContactFrictionConstraint HyperbolicSecant HyperbolicTangent SmoothingFunction VariablesLabeller")
COSTS = private("ComplementarityCost PhantomForcesCost SwingCost ForceMeanCost ForceRatioCost FeetDistanceCost MeanPointPositionCost FootYawCost JointsVelocityForPosturalCost HyperbolicSecant SmoothingFunction VariablesLabeller")
UTIL = ["Utilities.cpp", "Settings.cpp", "RectangularFoot.cpp", "State.cpp", "PositionReferenceGenerator.cpp"]
REAL = "floating-point rounding, overflow and NaN (doubles are read as reals)"
CHECKS = {
 "C01": dict(bounds="every state, control and positive parameter; 2 points per foot, 1 joint; each constraint, foot and point", outside="more points or joints than 2 and 1 (the code treats them by index); " + REAL,
   harnesses=[dict(name="contactv", src=["contact.cpp"], repo=CONTACT, defs=("VALUES_ONLY",))]),
 "C02": dict(bounds="every state, control, multiplier and positive parameter; 2 points per foot, 1 joint; each constraint, foot and point; any method called first, with and without one earlier evaluation of all methods at another arbitrary point", outside="histories longer than one earlier evaluation; " + REAL,
   harnesses=[dict(name="contactd", src=["contact.cpp"], repo=CONTACT)]),
 "C03": dict(bounds="every state, control, time, weight and reference (affine in time); 3 points per foot (4 or 5 for the yaw), 2 joints; three nominal foot rectangles for the yaw and one with a fifth point anywhere inside; with and without an earlier evaluation elsewhere", outside="references that are not affine in time; other nominal feet; " + REAL,
   harnesses=[dict(name="costsv", src=["costs.cpp"], repo=COSTS, defs=("VALUES_ONLY",), opts=dict(max_paths=1000))]),
 "C04": dict(bounds="as C03, any method called first, with and without one earlier evaluation of all methods at another arbitrary point", outside="histories longer than one earlier evaluation; " + REAL,
   harnesses=[dict(name="costs", src=["costs.cpp"], repo=COSTS, opts=dict(max_paths=1000))]),
 "C05": dict(bounds="every state, multiplier and bound; 3 points per foot; any method first, with and without one earlier evaluation elsewhere", outside=REAL,
   harnesses=[dict(name="basecon", src=["basecon.cpp"], repo=private("QuaternionNormConstraint FeetRelativeHeightConstraint QuaternionUtils VariablesLabeller"))]),
 "C06": dict(bounds="every argument, scaling, offset and time", outside="arguments for which exp overflows; " + REAL,
   harnesses=[dict(name="smooth", src=["smooth.cpp"], repo=UTIL + private("HyperbolicSecant HyperbolicTangent SmoothingFunction"))]),
 "C07": dict(bounds="every quaternion with norm in [1/2, 2] and every vector; the two-orientation error on the branches of the matrix-to-quaternion conversion that the time budget reaches", outside="branches of the conversion not reached in the budget (listed in the evidence); " + REAL,
   harnesses=[dict(name="quatutils", src=["quatutils.cpp"], repo=private("QuaternionUtils"), opts=dict(max_paths=3000)),
              dict(name="quaterr", src=["quatutils.cpp"], repo=private("QuaternionUtils"), defs=("PART_ERROR",), opts=dict(max_paths=3000, branch_timeout_ms=500, branch_budget_s=10, raw_budget_s=1, time_budget_s=60), thorough=dict(time_budget_s=600, branch_timeout_ms=4000, branch_budget_s=120))]),
 "C08": dict(bounds="every size, yaw/pitch/roll pose, wrench and centre of pressure", outside=REAL, harnesses=[dict(name="rectfoot", src=["rectfoot.cpp"], repo=["RectangularFoot.cpp"], opts=dict(max_paths=30000))]),
 "C09": dict(bounds="every time, position, range and increase; up to 3 references", outside="more than 3 references; " + REAL, harnesses=[dict(name="posref", src=["posref.cpp"], repo=["PositionReferenceGenerator.cpp"], opts=dict(max_paths=2000))]),
 "C10": dict(bounds="up to 3 labels of sizes 0, 1, 3 and 4, duplicates, every value", outside="longer label lists", harnesses=[dict(name="labeller", src=["labeller.cpp"], repo=private("VariablesLabeller"), opts=dict(max_paths=3000))]),
 "C11": dict(bounds="every position, force and step direction; 0 to 3 points per foot, 0 to 3 joints", outside="more points; " + REAL, harnesses=[dict(name="statecontrol", src=["statecontrol.cpp"], repo=["State.cpp", "Control.cpp"], opts=dict(max_paths=3000))]),
 "C12": dict(bounds="every value of the numeric fields in groups of at most six symbolic at a time (the others at a consistent value or with one earlier error), every non-numeric requirement broken alone with every combination of the activations it depends on; with and without previously accepted settings; 3 joints, 2 points per foot", outside="several non-numeric requirements broken together, NaN; time ranges cannot be made invalid through their interface; " + REAL,
   harnesses=[dict(name="settings", src=["settings.cpp"], repo=["Settings.cpp"], opts=dict(max_paths=20000), witness=["accepted","refused"])]),
 "C13": dict(bounds="every state, parameter and reference history: one step from an arbitrary reachable situation, and histories of 2 (thorough: 3) steps from initialisation; 2 points per foot", outside="longer concrete histories (covered by the one-step argument); " + REAL,
   harnesses=[dict(name="walking", src=["walking.cpp"], repo=UTIL, opts=dict(max_paths=3000, time_budget_s=200)),
              dict(name="walkhist2", src=["walking.cpp"], repo=UTIL, defs=("HISTORY=2",), opts=dict(max_paths=3000, time_budget_s=200)),
              dict(name="walkhist3", src=["walking.cpp"], repo=UTIL, defs=("HISTORY=3",), thorough_only=True, opts=dict(max_paths=6000, time_budget_s=600))]),
 "C14": dict(bounds="tree robot with 3 joints: each joint at every angle with the others straight (thorough: two joints at every angle), every reference and state for the guess; 4 points per foot for the default state, 1 for the lowering, up to 2 for the guess; base heights in [-1, 5], two base headings", outside="other robots, more joints moving together; " + REAL, harnesses=[
   dict(name="guess", src=["initstate.cpp"], repo=UTIL, defs=("PART=2",), witness=["carried"]),
   dict(name="lower", src=["initstate.cpp"], repo=UTIL, defs=("PART=1","ACTIVE=1","LOW=-1","HIGH=5"), opts=dict(max_paths=3000), witness=["lowered"]),
   dict(name="fill", src=["initstate.cpp"], repo=UTIL, defs=("PART=0","ACTIVE=1"), opts=dict(max_paths=3000), witness=["standing"]),
   dict(name="fill2", src=["initstate.cpp"], repo=UTIL, defs=("PART=0","ACTIVE=2"), thorough_only=True, opts=dict(max_paths=3000, time_budget_s=600), witness=["standing"])]),
 "C15": dict(bounds="every ordered list of 1 to 5 instants at least 1 ms apart, set once or after another list of 1 to 3 instants and a query; one (up to 3 instants: two, thorough: two) arbitrary query after one at each instant", outside="unordered lists, instants closer than 1 ms, longer histories; ties within 1e-8 of the squared distance",
   harnesses=[dict(name="timely", src=["timely.cpp"], repo=private("SharedKinDynComputations TimelySharedKinDynComputations QuaternionUtils"), defs=("MAXN=5","QUERIES=1"), opts=dict(max_paths=20000)),
              dict(name="timely2", src=["timely.cpp"], repo=private("SharedKinDynComputations TimelySharedKinDynComputations QuaternionUtils"), defs=("MAXN=3","QUERIES=2"), opts=dict(max_paths=20000)),
              dict(name="timely3", src=["timely.cpp"], repo=private("SharedKinDynComputations TimelySharedKinDynComputations QuaternionUtils"), defs=("MAXN=5","QUERIES=2"), thorough_only=True, opts=dict(max_paths=40000, time_budget_s=700))]),
}
for _c in CHECKS.values():
    for _h in _c["harnesses"]:
        _h.setdefault("witness", W.get(_h["name"], []))
