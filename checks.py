"""What each property's check builds, runs and has to see."""
from collections import OrderedDict

CHECKS = OrderedDict()
MESH = ["mesh%d" % k for k in range(9)]
SAMP = ["meshsamp%d" % k for k in range(9)]

FLOAT = "Values are compared with tolerances that follow the conditioning of the case (1e-9 to 1e-7 relative, wider where the ground is almost parallel to the rib); where the exact answer flips within rounding (a tangent chord, a triangle edge in the rib plane, a sample on a triangle side) no verdict is given."
GPP = "The library is compiled by g++ 13 at -O1 with libstdc++ assertions; another compiler or optimisation level is not observed."


def job(driver, families=None, flavour="plain", scale=1.0, scale_thorough=None, **k):
    j = {"driver": driver, "flavour": flavour, "scale": scale, "scale_thorough": scale_thorough or scale}
    if families:
        j["families"] = families
    j.update(k)
    return j


def check(pid, jobs, rule, technique, note, floors=None, assumptions=(FLOAT, GPP)):
    CHECKS[pid] = {"jobs": jobs, "rule": rule, "technique": technique, "note": note, "floors": floors or {}, "assumptions": list(assumptions)}


check("C01", [job("contact", ["flat-geometric"], scale=60, scale_thorough=18)],
      "A case is a random wheel (1 to 40 ribs, superelliptic section), pose (upright to upside down, near and far from the origin) and plane; every rib's outputs, through the wheel and through a single rib, are one evaluation each. Non-trivial: the reference sees a contact; distinct by the bits of all its outputs.",
      "online differential monitor: every contact output against an independent geometric model of the chord a plane cuts in a disc",
      "Every rib of every generated wheel and plane is judged; classes (contact, none, no verdict) are counted. Trusts the reference model in mon/ref.hh.",
      {"flat-geometric:contact": 1000000, "flat-geometric:no-contact": 300000, "flat:grazing": 14000})
check("C02", [job("contact", MESH + ["shared-edge", "radial"], scale=40, scale_thorough=14)],
      "A case is a random wheel, pose and one of 9 kinds of triangle ground (plane patches, bumpy grids, steps, kerbs, shards, soups, sloped strips, walls, far meshes, triangles that share an edge lying in the rib's plane, walls through the hub); every rib is one evaluation, through the wheel (broad phase included) and through a single rib with all triangles. Non-trivial: the reference sees a contact; distinct by the bits of the outputs.",
      "online differential monitor: contact on triangle meshes against an independent clip-and-compose reference model",
      "Reference clips each triangle against the rib disc and composes pieces by volume; trusts mon/ref.hh. Pieces grazing the rim within rounding widen the tolerance by their own size.",
      {"mesh-geometric:contact": 1000000, "mesh-geometric:contact-multi-piece": 700000, "mesh-geometric:no-contact": 500000, "mesh:more than 200 pieces": 800, "shared-edge:contact": 60000, "radial:contact": 60000})
check("C03", [job("contact", SAMP + ["flat-sampling"], scale=25, scale_thorough=8)],
      "As C01 and C02 with the sampling method: the four vertical samples of each rib are dropped on the plane or on the triangles by the reference. Non-trivial: all four samples find ground and the rib touches it; distinct by the bits of the outputs.",
      "online differential monitor: sampling enveloping against an independent four-sample reference model",
      "Ground outside of the wheel's bounding box is not seen by design of the broad phase: there no verdict is given (counted as out-of-box).",
      {"mesh-sampling:contact": 250000, "flat-sampling:contact": 350000, "mesh-sampling:no-contact": 250000})
check("C04", [job("contact", ["partial", "rib-air"], scale=30, scale_thorough=9)],
      "A case is one wheel used for 1 to 4 set ups with ground next to, inside of the box of, or under one side of it; evaluations are rib outputs and return values. Non-trivial: a rib that touches, or a rib in the air; distinct by the bits of the outputs.",
      "online monitor: set up result and in-the-air outputs against the reference, on reused wheels with partial contact",
      "The set up result is judged only if no rib is within rounding of touching.",
      {"partial:none": 100000, "partial:not-the-last": 12000, "partial:not-the-first": 12000, "partial:all": 12000, "partial:many-triangles": 25000})
check("C05", [job("invariance", scale=4, scale_thorough=2)],
      "A case is a random scene evaluated twice by the library, after a change that must not matter (triangle order and orientation, far ground, rigid motion, mirror, spin about the axle, subdivision, plane as mesh). Every rib is one evaluation; non-trivial: it touches; distinct by the bits of the outputs.",
      "metamorphic runtime monitor: two executions of the real code related by a symmetry of the problem",
      "No reference model is trusted: both sides are the library itself. Cases where rounding alone could flip the result give no verdict.",
      {"order:contact": 200000, "rigid-motion:contact": 200000, "mirror:contact": 150000, "spin:contact": 200000, "subdivision:contact": 180000, "far-ground:contact": 150000, "flat-as-mesh:contact": 130000, "spin:sampling": 5000})
check("C06", [job("broad", scale=5, scale_thorough=2)],
      "A case is a mesh (up to 20000 triangles, clustered, stacked, identical or degenerate boxes, shipped files) and a box or wheel; an evaluation compares the triangles found with a linear scan, or a wheel's contact on the mesh with that of each rib given all triangles. Non-trivial: something is found; distinct by the result.",
      "online differential monitor: tree query against linear scan, and whole contact with and without the broad phase",
      "Superset and exactness are both judged on the boxes; the wheel box is checked to contain each rib's disc.",
      {"query:some": 150000, "query:all": 60000, "query:empty": 100000, "lossless:contact": 350000, "shipped:meshes": 20})
check("C07", [job("files", ["rdf", "obj", "loaded-contact", "shipped", "huge"], scale=8, scale_thorough=4)],
      "A case is a random mesh written as a file (number formats, line ends, comments, blank lines, headings, several sections, faces with texture and normal indices, reloads, a few of more than 65536 nodes) or a shipped file, loaded with a random pose; an evaluation is one file. Non-trivial: more than one element; distinct by the text of the file.",
      "online differential monitor: loaded triangles against what the writer put in the file, or an independent reader",
      "Only the documented dialect is written: separators are spaces and elements follow their nodes.",
      {"elements": 3000000, "obj:faces with slashes": 3000, "reload": 15000, "pose:other unit of length": 3000, "shipped": 200, "loaded-contact:geometric": 3000, "huge": 8, "long comment": 6000})
check("C08", [job("files", ["refuse", "garble"], scale=8, scale_thorough=4)],
      "A case is a file made unreadable in one of 20 ways, or with random damage to its bytes, loaded into a mesh that holds something; an evaluation is one load. Every case is non-trivial; distinct by the text.",
      "fault-injecting monitor: damaged mesh files against an observer of the mesh before and after",
      "Memory errors while reading damaged files are observed by C13 under AddressSanitizer; here by libstdc++ assertions.",
      {"refused:index past the end": 800, "refused:negative index": 800, "refused:coordinate missing": 800, "refused:friction is not a friction": 400, "refused:index is not an index": 800, "refused:too many element entries": 500, "garbled:refused": 12000, "garbled:read": 2000})
check("C09", [job("wheel", ["totals"], scale=20, scale_thorough=8)],
      "A case is a random wheel and ground; an evaluation is the set of totals of one wheel against a composition of its own rib outputs. Non-trivial: some rib touches; distinct by the bits of the totals.",
      "online conservation monitor: wheel totals recomposed from the outputs of the ribs",
      "The volume threshold under which a plain mean is used is itself given no verdict within rounding.",
      {"totals:weighted": 150000, "totals:air": 50000, "totals:small-volume": 1600})
check("C10", [job("wheel", ["frames", "motion"], scale=20, scale_thorough=8)],
      "A case is a wheel, pose and ground, or a sequence of 1 to 6 hub motions; evaluations are frames, relative angles and hub states. Non-trivial: all; distinct by the bits of the inputs.",
      "online monitor: contact frames and relative angles against an orthonormal frame model, hub motion against an independent pose",
      "Frames are judged where the normal is not within 1e-3 of the axle; angles away from the gimbal.",
      {"frame": 1700000, "angles": 1700000, "motion": 60000})
check("C11", [job("wheel", ["ribs", "refuse", "surface"], scale=20, scale_thorough=8)],
      "A case is a random wheel, resized up to 3 times, or a point of its section, or parameters of a wheel that cannot exist. Evaluations are ribs, section points and refusals; all are non-trivial; distinct by the bits of the inputs.",
      "online monitor: ribs and section against the closed form of the superellipse, with finite differences",
      "Tolerances grow with the conditioning at the end of the section.",
      {"ribs": 6000000, "surface": 400000, "surface:derivative": 350000})
check("C12", [job("history", scale=12, scale_thorough=4)],
      "A case is a sequence of 3 to 24 operations on up to three wheels, three meshes and two planes (set ups with both methods, refused set ups, resizes, hub motions, loads, copies, clears, refused loads), or one wheel's journey of tens of mostly small steps; an evaluation is one set up compared with a fresh wheel on fresh ground. Non-trivial: some contact; distinct by the bits of the outputs.",
      "online history monitor: every set up against a fresh wheel on a fresh ground, every other object against its last snapshot",
      "The fresh objects are the library's own; what they compute is judged by C01 to C04.",
      {"setup:mesh:geometric:contact": 60000, "setup:flat:geometric:contact": 40000, "setup:mesh:sampling:contact": 20000, "load": 8000, "copy": 12000, "clear": 15000, "resize": 30000, "same pose again": 60000, "as many triangles": 15000, "changed plane": 30000, "copy of an altered mesh": 25000, "journey steps": 230000, "journey by small steps": 2500})
check("C15", [job("sfun", scale=10, scale_thorough=3, sources=["sfun/src_sfun/enve_sfun_interface.cc"])],
      "A case is 1 to 5 cycles of start, 1 to 8 steps and end over a random road file, wheel and poses, a start that must be refused, or a journey of many mostly small steps. An evaluation is one step compared with a wheel of the C++ interface; all are non-trivial; distinct by the bits of the output bus.",
      "online differential monitor: output bus of every step against the C++ interface, with guard words and live allocation counting",
      "The C++ interface is the oracle here; it is judged by C01 to C11.",
      {"mesh": 40000, "fallback": 70000, "flat": 45000, "refused step": 30000, "ribs:more": 45000, "cycles": 6000, "started again": 700, "refused:friction is not a friction": 500, "journey steps": 60000})
check("C16", [job("values", ["flat", "flat-refused", "triangle", "mesh", "defaults"], scale=20, scale_thorough=20)],
      "A case is one plane, triangle or mesh made from random values (also level, vertical, thin, far away or huge) through one of its constructors, or from values that are no ground. Non-trivial: all but the defaults; distinct by the bits of the values.",
      "online monitor: every accessor of a constructed ground against the values it was made of and exact geometry",
      "Normals of triangles thinner than rounding are given no verdict; boxes, vertices, frictions and ids are compared exactly.",
      {"flat:made": 300000, "flat:refused:downward normal": 30000, "triangle:normal judged": 250000, "triangle:vertical": 120000, "mesh:made": 45000, "triangle:refused": 450000})
check("C17", [job("values", ["copy-flat", "copy-triangle", "copy-shape", "copy-rib", "copy-mesh"], scale=15, scale_thorough=15)],
      "A case is a random object, a copy of it over another object, changes of or the end of the source, and comparisons with objects that differ in one value by a hundredth of or a hundred times the tolerance. Non-trivial: all but empty meshes; distinct by the bits of the values.",
      "online monitor: copies and comparisons against the values the objects were made of, both ways round",
      "Whether the tolerance is absolute or relative is not specified: differences within either give no verdict. The id of a ground triangle is not part of its comparison.",
      {"approx:different": 3500000, "approx:equal": 3700000, "copy:mesh": 35000, "copy:rib": 170000, "copy:shape": 170000})

ACME = "Values are judged with margins: within a thousandth of the size of the entities from a boundary, or within 1e-6 of a special position, no verdict is given. The tolerances of the library are the default ones."
check("C18", [job("kernel", ["intersection", "coplanar-triangles", "three-planes", "inside"], scale=12, scale_thorough=4)],
      "A case is a pair of entities (points, lines, rays, planes, segments, triangles, disks, balls) made to cross, touch planes, lie in one plane or line, be parallel, equal or apart, in both orders; three planes in general position, in pencils or parallel; or an entity and a point. An evaluation judges points of the result and sampled points of both entities. Non-trivial: there is an intersection; distinct by the values.",
      "online monitor: points of the result must be common to both entities, and points common to both must be in the result",
      "Pairs the library refuses (balls with points and planar entities) and common parts of triangles or disks in one plane, for which it has no entity, are left out but for whether triangles overlap.",
      {"points common": 8000000, "points apart": 12000000, "coplanar:some": 30000, "collinear-apart:some": 6000, "coplanar-triangles:overlap": 25000, "pair triangle-disk": 12000, "pair segment-triangle": 15000, "pair point-triangle": 12000, "inside:triangle:in": 8000, "three-planes:point": 100000, "three-planes:none": 35000}, assumptions=(ACME, GPP))
check("C19", [job("kernel", ["predicates"], scale=20, scale_thorough=8)],
      "A case is a pair of lines, rays, segments, planes, triangles or disks, or a vector and one of them, exactly or roughly parallel, orthogonal, coplanar or collinear or in general position; an evaluation is all predicates in both orders. All are non-trivial; distinct by the values.",
      "online monitor: predicates against angles and distances of the values the entities were made of",
      "Verdicts are given within 1e-10 of and beyond 1e-4 from the special position.",
      {"parallel:yes": 500000, "parallel:no": 1000000, "orthogonal:yes": 150000, "coplanar:yes": 500000, "coplanar:no": 800000, "collinear:yes": 80000, "vector-parallel:yes": 150000, "vector-orthogonal:yes": 150000}, assumptions=(ACME, GPP))
check("C20", [job("coll", ["boxes", "trees"], scale=12, scale_thorough=4)],
      "A case is two boxes and a point, or two sets of up to 1500 boxes (touching, flat, equal, nested, rows, points) and their trees, built new or over another tree; an evaluation compares all derived values, all pairs found, or the collision found by a function that accepts some pairs. Non-trivial: boxes, and trees with some pair; distinct by the values.",
      "online differential monitor: boxes and trees of boxes against exact comparisons of intervals and a scan of all pairs",
      "The distance queries of the tree are private and not reachable.",
      {"boxes:meet": 150000, "boxes:apart": 500000, "boxes:point in": 100000, "trees:some": 60000, "trees:large": 6000, "pairs": 40000000, "boxes:approx": 350000, "collision:yes": 6000, "collision:no": 30000}, assumptions=(GPP,))
check("C21", [job("coll", ["collections", "lookups", "pairwise"], scale=20, scale_thorough=6)],
      "A case is a sequence of up to 12 changes of a collection of entities of all kinds, each followed by all questions about it; two collections of bounded entities and their lookups; or a collection and its mutual intersections. Non-trivial: not empty; distinct by the values.",
      "online model-based monitor: a list of entity values that is changed alongside, and a scan of all pairs of boxes",
      "Whether one entity is degenerated is judged on exact cases only. An entity is held once per collection.",
      {"collections": 200000, "entities": 1200000, "removals": 200000, "collections:boxed": 60000, "lookups:some": 80000, "lookups:used before": 40000, "pairwise": 700000}, assumptions=(GPP,))
check("C22", [job("entities", scale=12, scale_thorough=4)],
      "A case is one random entity: a chain of up to 4 motions, or all of its measures, or its box, or its kind and comparisons. All are non-trivial; distinct by the values and motions.",
      "online monitor: entities against an independent model of their points, motions and measures",
      "The box of a disk may be any that holds it and lies in that of its ball.",
      {"moved:triangle": 100000, "moved:disk": 100000, "moved:point": 100000, "measured:triangle": 100000, "measured:plane": 100000, "bounds:triangle": 100000, "kind:ball": 60000, "bent": 100000}, assumptions=(ACME, GPP))

def mem(driver, scale, families=None, flavour="asan", **k):
    return job(driver, families, flavour=flavour, scale=scale, scale_thorough=k.pop("scale_thorough", scale), only_kinds="memory", **k)


SFUN = ["sfun/src_sfun/enve_sfun_interface.cc"]
check("C13", [mem("memory", 1), mem("contact", .6), mem("broad", .15), mem("files", .4), mem("wheel", .5), mem("history", .4), mem("values", .3), mem("sfun", .4, sources=SFUN), mem("kernel", .3), mem("entities", .3), mem("coll", .3),
              mem("memory", 2, ["life"], flavour="plain"), mem("kernel", 1, ["leaks"], flavour="plain"),
              mem("memory", .01, flavour="vg", shards=2), mem("contact", .002, flavour="vg", shards=4), mem("history", .004, flavour="vg", shards=2), mem("files", .004, flavour="vg", shards=2)],
      "A case is a scene, file or sequence of the other drivers, or a sequence of 1 to 8 calls with odd values (not finite, huge, degenerate triangles, empty grounds, unsized outputs, singular poses), or geometric entities, boxes and collections, run under AddressSanitizer and UndefinedBehaviorSanitizer, or under memcheck, or with counted allocations. Distinct by the outputs or the calls.",
      "AddressSanitizer, UndefinedBehaviorSanitizer, memcheck, libstdc++ and Eigen assertions, live allocation counting",
      "Only the paths the drivers take are observed. Rib numbers past the end are outside of the contract. Leaks are counted through operator new.",
      {"memory/asan calls": 10000, "memory/plain life cycles counted": 3000, "contact/asan mesh-geometric:contact": 20000, "files/asan elements": 30000, "memory/vg calls": 300, "contact/vg flat-geometric:contact": 8, "kernel/plain leaks:done": 10000, "coll/asan collections": 4000, "kernel/asan points common": 200000, "entities/asan moved:triangle": 2000})
check("C14", [job("threads", scale=6, scale_thorough=4, shards=4), job("threads", flavour="tsan", scale=1.5, scale_thorough=1, shards=4)],
      "A case is 2 to 6 threads that set up own wheels on shared meshes and planes, query and copy shared meshes, load own meshes and read a shared wheel, with random yields and sleeps; an evaluation is one call compared with the same call of a single thread. Non-trivial: contact; distinct by the outputs.",
      "ThreadSanitizer, and online comparison of every concurrent result with the sequential one",
      "The interleavings are those the scheduler gives; how many calls overlapped is counted. Writing to an object that another thread uses is outside of the contract, as is the simulation interface.",
      {"threads/plain shared": 1000, "threads/tsan shared": 250, "threads/tsan loads": 80, "threads/tsan calls with one other running": 2000})
MEX = [("toolbox/src_mex/mex_%s.cc" % k, ("-DmexFunction=mex_%s" % k,)) for k in ("flat", "mesh", "shell", "triangleground")]
check("C23", [job("mex", flavour="toolbox", scale=8, scale_thorough=30, sources=MEX),
              job("mex", flavour="toolbox-asan", scale=1.2, scale_thorough=5, sources=MEX)],
      "A case is a sequence of 1 to 8 commands on up to a dozen wheels, meshes, planes and ground triangles behind handles (integers in every numeric class, poses, files, set ups, copies, deletes), or of such commands with one thing wrong; all objects are read through every command after each. All are non-trivial; distinct by the sequence.",
      "online differential monitor: every command of the bindings against a C++ object changed alongside, with counted locks and allocations, plain and under AddressSanitizer",
      "MATLAB is replaced by mon/mexstub.hh: arrays of exact size, errors that unwind, collection of what a call made and did not return. Handles of deleted objects and indices past the end are outside of the contract.",
      {"mex/toolbox cmd shell contactDepthRib": 150000, "mex/toolbox setup mesh contact": 600, "mex/toolbox setup flat contact": 600, "mex/toolbox refused handle": 600, "mex/toolbox refused matrix": 2000, "mex/toolbox refused an argument less": 3000, "mex/toolbox life cycles counted": 8000, "mex/toolbox cmd shell rotation": 40000, "mex/toolbox cmd mesh load": 1300, "mex/toolbox-asan refused matrix": 100},
      assumptions=("The wheels, meshes and planes of the C++ interface are the oracle; the toolbox's copy of them is judged by C24.", GPP))
check("C24", [job("contact", flavour="toolbox", scale=8, scale_thorough=4), job("wheel", flavour="toolbox", scale=4, scale_thorough=3), job("files", flavour="toolbox", scale=2, scale_thorough=2),
              job("history", flavour="toolbox", scale=3, scale_thorough=2), job("values", flavour="toolbox", scale=3, scale_thorough=6), job("broad", flavour="toolbox", scale=.8, scale_thorough=.6)],
      "A case is one of those of C01 to C12, C16 and C17, on the library built from the sources in toolbox/src. Non-trivial and distinct as there.",
      "online differential monitors of the library's properties, on the build of the toolbox's own sources",
      "Fewer cases than for the library itself; the same oracles.",
      {"contact/toolbox mesh-geometric:contact": 150000, "contact/toolbox flat-geometric:contact": 100000, "files/toolbox elements": 600000, "history/toolbox setup:mesh:geometric:contact": 12000, "wheel/toolbox totals:weighted": 25000, "values/toolbox copy:mesh": 6000})
check("C25", [job("print", scale=4, scale_thorough=2)],
      "A case is an entity, a box or tree of boxes, a ground (with a mesh printed over an older file), or a wheel in some contact, printed two or three times to streams of its own; an evaluation is one object, whose values are looked up in order among the numbers of the text. Non-trivial: not empty; distinct by the values.",
      "online monitor: numbers read back from the printed text against the values of the object, with the standard output watched",
      "Labels, units and number formats are not judged, only that at least six digits of each value are there in order. The flags left on a stream are not judged.",
      {"wheel": 15000, "mesh": 9000, "triangleground": 9000, "flat": 9000, "tree": 20000, "disk": 8000, "affine": 8000}, assumptions=(GPP,))
check("C26", [job("mlab", flavour="toolbox", scale=5, scale_thorough=25, sources=MEX)],
      "A case is a sequence of method calls on objects of the four classes, with valid, foreign or missing arguments, plots and displays; an evaluation is one call, whose results, drawn objects and text are compared with those of the C++ twin. Distinct by class, method and state of the object.",
      "online differential monitor: the classes' own .m text executed by an interpreter over the real bindings, against C++ objects changed alongside; graphics calls and live handles recorded",
      "The interpreter (mon/mlab.hh) stands in for MATLAB and implements what the classes use; statements it does not know give no verdict, and are counted. Colours, line styles and labels are not judged.",
      {"asked": 100000}, assumptions=(GPP,))
check("C27", [job("work", flavour="count", scale=6, scale_thorough=1)],
      "A case is a ground of many triangles (planes, ramps and strips of any direction, soups, stacks, mixed sizes, drums, domes, rough ground), an operation and its cost: basic blocks executed, bytes held at most, stack used. Every case is non-trivial; distinct by cost and size.",
      "online resource monitor: executed blocks, live heap and stack, counted by compiler instrumentation, against bounds in the size of what is near",
      "Bounds are several times what the costliest of many thousand cases needs, so they tell another order of growth, not a slower constant.",
      {"build:plane": 15, "build:rough": 15, "build:round": 15, "build:soup": 15, "build:stacked": 15, "build:strip": 15, "build:two sizes": 15, "copied": 50,
       "set up:contact": 1000, "set up:less than a hundredth near": 700, "again:mesh": 120, "again:plane": 40, "ribs": 300, "load:obj": 80, "load:rdf": 80})

check("C28", [job("faults", sources=["sfun/src_sfun/enve_sfun_interface.cc"], scale=5, scale_thorough=4), job("faults", flavour="asan", sources=["sfun/src_sfun/enve_sfun_interface.cc"], scale=1)],
      "A case is an operation on grounds, wheels, the S-function, entities or collections; an evaluation is the same operation with one allocation, read, write or opening (or all from one on) made to fail. Non-trivial: the fault happened; distinct by the operation, the place and its result.",
      "fault-injecting monitor: operator new, read, write and fopen fail at chosen places; snapshots of everything before and after, the same operation again, and live allocations",
      "Places are sampled: the first, the last and random ones in between.",
      {"faults/plain reported:allocation": 25000, "faults/plain reported:read": 1500, "faults/plain reported:write": 1200, "faults/plain reported:opening": 600, "faults/plain short transfers": 600,
       "faults/plain after a fault:loading a file into a mesh": 5000, "faults/plain after a fault:copying a mesh": 2000, "faults/plain after a fault:starting the S-function": 2000, "faults/plain after a fault:setting up on a mesh, geometric": 1000, "faults/plain after a fault:setting up on a mesh, sampling": 1000, "faults/plain after a fault:resizing a wheel": 2000, "faults/plain after a fault:intersecting entities": 200, "faults/plain used after a fault": 5000, "faults/asan used after a fault": 500}, assumptions=(GPP,))
