VR = ["VirtualRobot"]
HARNESS = {
    "kin": dict(src=["kin.cpp"], libs=VR, cfg=["asan"]),
    "col": dict(src=["col.cpp"], libs=VR, cfg=["asan"]),
    "xml": dict(src=["xml.cpp"], libs=VR, cfg=["asan"]),
    "ik": dict(src=["ik.cpp"], libs=VR, cfg=["asan"]),
    "cmp": dict(src=["cmp.cpp"], libs=VR, cfg=["asan"], extra="-lbz2"),
    "traj": dict(src=["traj.cpp"], libs=VR, cfg=["asan"]),
    "ws": dict(src=["ws.cpp"], libs=VR, cfg=["asan", "tsan"]),
    "thr": dict(src=["thr.cpp"], libs=VR, cfg=["tsan"]),
    "plan": dict(src=["plan.cpp"], libs=["Saba", "VirtualRobot"], cfg=["asan"]),
    "pthr": dict(src=["pthr.cpp"], libs=["Saba", "VirtualRobot"], cfg=["tsan"]),
    "tri": dict(src=["tri.cpp"], libs=VR, cfg=["asan"]),
    "mass": dict(src=["mass.cpp"], libs=VR, cfg=["asan"]),
    "obj": dict(src=["obj.cpp"], libs=VR, cfg=["asan"]),
    "bad": dict(src=["bad.cpp"], libs=VR, cfg=["asan"]),
    "hand": dict(src=["hand.cpp"], libs=VR, cfg=["asan"]),
    "grasp": dict(src=["grasp.cpp"], libs=["VirtualRobot", "GraspStudio"], cfg=["asan"]),
    "sim": dict(src=["sim.cpp"], libs=["VirtualRobot", "SimDynamics"], cfg=["asan"], extra="-lBulletDynamics -lBulletCollision -lLinearMath"),
    "geo": dict(src=["geo.cpp"], libs=VR, cfg=["asan"]),
}
def A(h, rule, need=None, min_evals=1000, **kw):
    return dict(runs=[dict(h=h, cfg="asan", **kw)], rule=rule, need=need or {}, min_evals=min_evals)
PROPS = {
    "C01": A("kin", "a case is a generated robot with a command history; counted distinct: hashes of observed node poses", {"placed": 100}),
    "C02": A("kin", "a case is a generated robot with a command history; counted distinct: (joint, limitless, held value) triples"),
    "C03": A("kin", "a case is a generated robot with six placements; counted distinct: placements"),
    "C18": A("geo", "a case is 40 rotations (identity, half turn, gimbal lock and their neighbourhoods, random) through every conversion; counted distinct: rotations"),
    "C19": A("geo", "a case is 25 primitive configurations at random scale; counted distinct: configurations", {"ray-hit": 500, "ray-miss": 500, "hull2d": 1000, "segplane": 500, "oobbplane": 500, "inside": 500, "outside": 500, "pinv": 500}),
    "C04": A("xml", "a case is a generated robot (physics, models, sensors, sets, end effectors) copied three times; counted distinct: compared poses", {"clone": 200, "subpart": 100, "scaled": 100, "rns": 100, "eef": 50, "collision": 100}),
    "C05": A("xml", "a case is a generated robot saved, reloaded, loaded in every mode and included in another robot; counted distinct: compared poses", {"rns": 100, "eef": 50, "collision": 100, "visual": 100, "child-from-robot": 50}),
    "C11": A("tri", "a case is a history of mesh edits, an inflated mesh, a collision model through moves, clones and inflation, a bounding box history, a generated primitive or an STL file; counted distinct: mesh sizes with operations, poses, files", {"mesh-histories": 300, "merge": 200, "fatten": 100, "model-histories": 200, "boxes": 100, "stl-binary": 100, "stl-text": 100, "stl-truncated": 50, "addMissingNormals": 100}),
    "C12": A("mass", "a case is an object with derived or given mass properties moved, copied, edited, read and written, or a robot with its node sets through configurations, edits and copies; counted distinct: poses", {"com-derived": 300, "com-custom": 300, "inertia-derived": 200, "linear-in-mass": 100, "clone-scaled": 50, "sets": 1000, "robot-clone": 200, "subpart": 100, "reload": 100, "file-obstacle": 50, "file-manipulation": 50, "saved": 20}),
    "C09": A("col", "a case is a pair of meshes through 14 moves; counted distinct: pairs of poses", {"colliding": 300, "separate": 300, "point-near": 300, "point-far": 300, "clone": 20}),
    "C10": A("col", "a case is a scene of objects, robots, sets and a manager through 8 rearrangements; counted distinct: arrangements", {"colliding": 300, "separate": 300, "manager": 300}),
    "C06": A("ik", "a case is a generated robot in three configurations: Jacobians, errors, inverses, gradients, manipulability; counted distinct: (frame pose, Jacobian) pairs", {"object-frame": 100, "default-frame": 100, "com": 100, "gradient": 500, "hierarchy": 50, "stacked": 50, "step": 50}),
    "C07": A("ik", "a case is a generated robot with four IK requests to varying solvers; counted distinct: resulting configurations", {"differential-solved": 50, "generic-solved": 50, "generic-collision-solved": 50, "grasp-set-solved": 10, "com-solved": 10, "optimization-solved": 10, "gaze-solved": 20}),
    "C13": A("traj", "a case is a trajectory edited, sampled, saved and reloaded, or a set of configurations; counted distinct: states of the edited object", {"interpolate": 100, "workspace": 20, "xml": 50, "config": 50, "config-applied": 50, "insert-self": 10}),
    "C14": A("traj", "a case is a path with limits, parametrised and sampled; counted distinct: sampled states", {"solved": 100, "straight": 50, "copied": 20}),
    "C15": A("cmp", "a case is a buffer compressed and expanded, or a damaged stream; counted distinct: buffers", {"rle": 100, "bz": 100, "bz-multiblock": 1, "bz-peer": 50, "corrupted": 100, "rejected": 50}),
    "C16": dict(runs=[dict(h="ws", cfg="asan"), dict(h="ws", cfg="tsan")], rule="a case is a workspace map edited, queried, cut, filled in parallel or turned into a grid; counted distinct: map contents", need={"map": 100, "manip": 20, "covered-query": 500, "outside": 50, "cloned": 20, "overflow": 20, "filled-holes": 40, "neighbors": 50, "random-mt": 50, "grid": 50, "grid-merge": 100, "grid-fill-cell": 10, "cut-covered": 100, "grasp-reachable": 20, "grasp-unreachable": 20}, min_evals=10000),
    "C17": A("ws", "a case is a map written and read back, in every file version, or a damaged file; counted distinct: map contents", {"reloaded": 50, "old": 50, "truncated-rejected": 50, "damaged": 50, "old-truncated": 20, "dense": 3}),
    "C20": A("plan", "a case is a planning world with a planner through up to four rounds of changed starts and goals; counted distinct: points of solution paths", {"solved": 300, "solved-birrt": 100, "impossible": 50, "open": 50, "refused": 100, "stopped": 20, "timeout": 20, "trivial": 20}),
    "C21": A("plan", "a case is a path in a planning world measured, sampled, checked, shortened and smoothed; counted distinct: interpolated and path points", {"interpolated": 1000, "workspace": 50, "invalid-point": 50, "shortcut": 100, "shortened": 100, "elastic-free": 100, "elastic-obstacle": 50, "elastic-force": 50}),
    "C23": A("plan", "a case is a configuration space queried, sampled, copied, and a tree of its nodes edited; counted distinct: interpolated configurations", {"segment-valid": 500, "segment-invalid": 100, "until-invalid-partial": 100, "nearest": 100, "tree-path": 100, "pool": 50, "cloned": 50, "sampler": 50}),
    "C22": dict(runs=[dict(h="pthr", cfg="tsan")], rule="a case is up to three planners in threads (own or shared robot) or a path processor in a thread, driven by a random sequence of start, poll, interrupt, stop, restart and destroy; counted distinct: numbers of cycles and processed paths", need={"started": 100, "stopped": 100, "destroyed": 30, "solved": 50, "shared-queries": 500, "process-started": 50, "process-stopped": 50, "processed": 50}, min_evals=1000),
    "C25": A("hand", "a case is a generated hand with obstacles: posed, preshaped, closed fully or in steps, opened, queried and copied; counted distinct: finger configurations", {"closed": 150, "opened": 25, "stopped-contact": 300, "stopped-limit": 500, "contacts": 60, "approach": 80, "alone": 40, "again": 25, "preshape": 50, "query-hit": 200, "query-free": 2000, "copied": 25, "started-colliding": 30, "static-contacts": 20, "moved": 500}),
    "C24": A("grasp", "a case is a point set wrapped in a hull, friction cones, a grasp judged in wrench space (reordered, extended, moved, emptied) and a mesh refined; counted distinct: hulls, cones and refined meshes", {"hulls": 150, "hulls-generic": 100, "hulls6": 60, "cones": 500, "grasps": 150, "closure": 20, "no-closure": 40, "flat": 40, "ows": 60, "more": 60, "moved": 60, "emptied": 15, "no-contacts": 30, "precalculated": 15, "refined": 60}),
    "C26": A("sim", "a case is a simulated world: objects and robots added, commanded, stepped and removed, a free flight, boxes at rest, impacts, or motor driven robots; counted distinct: body states", {"added": 300, "added-twice": 40, "contacts": 300, "flights": 15, "impacts": 15, "rested": 15, "synced": 1000, "shapes": 250, "steps": 800, "collision-switches": 25, "robots": 20, "tracked": 60, "chains": 60, "attached": 6, "momenta": 3, "moved": 3, "limp": 3, "velocity-mode": 5, "robots-twice": 2}),
    "C27": A("obj", "a case is a grasp set or an object edited, copied, saved and reloaded, a grasp applied to a robot, or a scene registered, deregistered, saved and reloaded; counted distinct: poses and compositions", {"scenes": 300, "deregistered": 300, "saved": 100, "robots-reloaded": 100, "things-reloaded": 100, "trajectories-reloaded": 50, "sets-reloaded": 50, "set-clone": 50, "grasp-poses": 300, "include-grasp-set": 20, "models-compared": 100, "stl": 50, "configs": 100}),
    "C28": A("bad", "a case is a document (robot, scene, obstacle, manipulation object) damaged eight times, five documents with one defect each, a damaged STL file twelve times, or a set of files including each other; counted distinct: damaged texts", {"damaged-loaded": 300, "damaged-rejected": 300, "damaged-scenes": 100, "defects": 100, "stl-accepted": 100, "stl-rejected": 100, "cycles": 10}),
    "C29": A("grasp", "a case is a grid or sample of uncertain poses, a generated hand approaching an object, grasps planned for it and evaluated under pose uncertainty; counted distinct: approach poses, planned grasps and pose sets", {"approaches": 200, "approach-free": 150, "by-area": 4, "eef-poses": 60, "grasps-planned": 10, "planned": 5, "retreated": 60, "grids": 25, "sampled": 25, "grasps-evaluated": 25, "grasps-without-contact": 40, "poses-colliding": 10, "poses-free": 60, "tries": 200}),
    "C08": dict(runs=[dict(h="thr", cfg="tsan")], rule="a case is a robot shared by 1-3 writer and 1-3 reader threads issuing random commands; counted distinct: combinations of commands seen in one consistent view", need={"reads": 10000, "writes": 10000, "pose-writers": 100}, min_evals=1000),
}
