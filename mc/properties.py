"""The properties; gen.py turns them into properties.jsonl and MANIFEST.json."""
PROPERTIES = []


def prop(id, title, statement, over, forall, why, files, mechanism, technique,
         level_note, na=None):
    PROPERTIES.append(dict(
        id=id, title=title, statement=" ".join(statement.split()), over=over,
        forall=" ".join(forall.split()), why=" ".join(why.split()), files=files,
        mechanism=mechanism, technique=technique,
        level_note=" ".join(level_note.split()), na=na))


SCHED = "stateless model checking of the real code under a controlled scheduler"
ENUM = "explicit enumeration of all bounded operation histories on the real code"

prop("P01", "Thread pool runs every task exactly once, after its dependencies",
     """Every task handed to the thread pool is executed exactly once and only
     after all tasks it depends on have completed, with their effects visible
     to it, no matter from which thread or work item it is scheduled. Once the
     handle returned by scheduling has expired the task has certainly
     completed, and destroying the pool waits for all scheduled work; no
     schedule deadlocks, races or touches freed memory.""",
     ["schedules", "programs"],
     """All dependency graphs over the bounded number of tasks, all ways of
     scheduling them (one client, two clients, from running tasks), and all
     thread interleavings up to the preemption bound.""",
     """Tests run a handful of graphs on whatever schedule the OS picks; lost
     wake-ups, double execution or early start need a specific interleaving of
     completion, dependency registration and dispatch.""",
     ["cartographer/common/task.cc", "cartographer/common/task.h",
      "cartographer/common/thread_pool.cc", "cartographer/common/thread_pool.h"],
     [("task state machine", "cartographer/common/task.cc"),
      ("queueing and worker loop", "cartographer/common/thread_pool.cc")],
     SCHED,
     """Exhaustive over schedules with at most 2 (thorough: 3) preemptions for
     graphs of 3 (4) tasks and 1-2 (3) workers; sequential consistency plus a
     happens-before race check is assumed to cover weaker memory models.""")

prop("P02", "Blocking queue is a linearizable bounded FIFO",
     """Concurrent users of the blocking queue observe one bounded
     first-in-first-out queue: every value pushed successfully comes out
     exactly once and in order, the capacity is never exceeded, and peeking,
     size and waiting-for-empty report a state the queue really had. An
     operation blocks only while the queue is full (push), empty (pop) or
     non-empty (wait), and an operation with a timeout fails only if that was
     the case.""",
     ["schedules", "programs"],
     """All programs of the bounded size over all operations, all capacities
     listed, all interleavings up to the preemption bound, and timeouts firing
     at any point.""",
     """Tests exercise one producer and one consumer; missed wake-ups,
     overfilling or spurious timeouts depend on the interleaving.""",
     ["cartographer/common/internal/blocking_queue.h"],
     [("queue operations", "cartographer/common/internal/blocking_queue.h")],
     SCHED + "; each history checked for linearizability",
     """Exhaustive for 2 threads x 2 operations over all 8 operations and
     larger programs over push/pop, 1-2 preemptions; time is modelled as
     'a timeout may fire at any point'.""")

prop("P17", "Occupancy values: bounded, monotone, exact table arithmetic",
     """Every stored cell value decodes to a probability (or cost, or TSD
     value) within the documented range, encoding and decoding round-trip, and
     unknown is kept apart from all known values. Applying a hit (odds above
     one) never lowers and applying a miss never raises the probability of a
     cell, and the result is the Bayes update of the old probability within
     the quantisation step.""",
     ["inputs", "configurations"],
     """All 32768 cell values, with and without the update marker, for every
     odds of the bounded set, and all quantised floats.""",
     """Unit tests check a few values; a wrong table entry only shows for
     particular cell values and odds.""",
     ["cartographer/mapping/probability_values.cc",
      "cartographer/mapping/probability_values.h",
      "cartographer/mapping/value_conversion_tables.cc",
      "cartographer/mapping/internal/2d/tsd_value_converter.cc"],
     [("value/probability conversion", "cartographer/mapping/probability_values.h"),
      ("lookup tables", "cartographer/mapping/probability_values.cc")],
     "exhaustive enumeration of the value space on the real code",
     """Every table entry is checked for the listed odds/ranges against an
     independent double precision oracle.""")

for _id, _d, _name in (("P05", "2", "2D"), ("P08", "3", "3D")):
    prop(_id, "%s pose graph: result depends only on the calls made, and stays consistent" % _name,
     """Whatever calls are made on the %s pose graph (nodes of several
     trajectories, finishing, deleting, trimming, loading frozen trajectories,
     initial poses, landmark, odometry, IMU and fixed-frame data, optimization)
     and however its background work is interleaved with them, nothing races,
     deadlocks or aborts, and once the work is done its contents are those of
     executing the calls one after the other: each node and submap that was not
     trimmed or deleted is there exactly once with its data, intra-submap
     constraints link exactly the nodes to the submaps they were inserted into,
     every node is matched against every finished submap it is not part of
     exactly once, optimizations happen exactly when due and are reported to
     the callback with the last optimized ids, and trajectory states and
     connectivity are as expected. At every point in time constraints refer to
     existing nodes and submaps, nothing of a deleted trajectory remains,
     frozen trajectories and frozen landmarks stay where they are, trajectories
     are not torn apart, and (with consistent observations) optimized poses
     agree with all constraints.""" % _name,
     ["schedules", "operation histories"],
     """All sequences of up to 3 (thorough: 4) of the 19 calls from 5 starting
     situations, with background work done or pending after every call; selected
     programs with an observer or second client under all interleavings with 1
     (2) preemptions.""",
     """Tests use one thread and wait for all work; lost or duplicated work,
     dangling references after trimming and deletion, and crashes need a
     specific history and a specific progress of the background work.""",
     ["cartographer/mapping/internal/%sd/pose_graph_%sd.cc" % (_d, _d),
      "cartographer/mapping/internal/optimization/optimization_problem_%sd.cc" % _d,
      "cartographer/mapping/internal/trajectory_connectivity_state.cc",
      "cartographer/mapping/pose_graph_trimmer.cc"],
     [("work queue, constraint search, trimming, lifecycle",
       "cartographer/mapping/internal/%sd/pose_graph_%sd.cc" % (_d, _d)),
      ("solver set-up, frozen poses",
       "cartographer/mapping/internal/optimization/optimization_problem_%sd.cc" % _d)],
     SCHED + "; final contents compared with a sequential model, integrity checked throughout",
     """The real pose graph, constraint builder, matchers, Ceres problem and
     thread pool; a scene of three points in which all scans match. Sequential
     consistency plus a happens-before race check; call sequences at preemption
     bound 0, selected programs at bound 1 (2).""")

for _id, _d, _name in (("P09", "2", "2D"), ("P06", "3", "3D")):
    prop(_id, "%s maps: a saved state can be loaded and is the same map" % _name,
     """Whatever the history of a %s map, its state can be saved at any time,
     also while the pose graph is working, and what was saved can always be
     loaded again, into an empty map builder or one that has trajectories
     already (which are not affected). If the graph was idle when saving, the
     loaded map is the saved one: every node and every submap (without
     unfinished submaps unless requested) with its data and pose, all
     constraints between saved submaps and nodes (none if loaded frozen),
     odometry, IMU, fixed-frame and landmark data of the saved trajectories (none
     if loaded frozen), landmark poses, trajectory data, and for every
     trajectory the sensor ids and options it was built with, under the ids
     that the returned remapping says. Saving the loaded state again gives the
     same map. Mapping can go on: new nodes are matched against the loaded
     finished submaps, what was loaded frozen (and loaded landmarks) does not
     move, and a loaded trajectory can be deleted.""" % _name,
     ["operation histories", "schedules", "persisted states"],
     """All sequences of up to 2 (thorough: 3) of 17 calls from 5 starting
     situations, all combinations of with/without unfinished submaps,
     frozen/active and empty/non-empty map builder; saving concurrently with
     background work or a second client under all interleavings with 1 (2)
     preemptions.""",
     """Tests save and load one or two fixed maps; files that cannot be loaded
     or mix up trajectories need particular histories (a trajectory without
     nodes, deleted or frozen ones) or saving at a particular moment.""",
     ["cartographer/mapping/map_builder.cc", "cartographer/mapping/pose_graph.cc",
      "cartographer/io/internal/mapping_state_serialization.cc",
      "cartographer/io/proto_stream_deserializer.cc",
      "cartographer/mapping/internal/%sd/pose_graph_%sd.cc" % (_d, _d)],
     [("saving", "cartographer/io/internal/mapping_state_serialization.cc"),
      ("contents of the pose graph", "cartographer/mapping/pose_graph.cc"),
      ("loading, remapping of trajectories", "cartographer/mapping/map_builder.cc"),
      ("loading into the graph", "cartographer/mapping/internal/%sd/pose_graph_%sd.cc" % (_d, _d))],
     SCHED,
     """Real map builder, pose graph, solver and matchers; the file is kept in
     memory (the file format is the subject of another property). Two trajectories that are
     being built and one or two frozen ones.""")

prop("P10", "Sensor data is merged in time order, complete and per subscription",
     """Sensor data of all trajectories reaches each trajectory's callback
     under its own sensor id, in order of time (across all trajectories for
     the collator, within each trajectory for the trajectory collator), every
     item at most once. An item is held back only while some unfinished sensor
     it has to be ordered against lacks data (which is the trajectory reported
     as blocking), and flushing or finishing releases it; nothing is lost except the data
     before all sensors of the trajectory have started. The result does not
     depend on how the sensors' data interleave on arrival.""",
     ["histories", "inputs"],
     """All histories of the bounded number of operations (add data of any
     sensor with any time step, finish, add a trajectory later, unknown
     sensors, flush) and all arrival orders.""",
     """Tests feed one or two fixed sequences; loss, reordering or a stuck
     queue needs a particular interleaving of arrival, finishing and equal
     time stamps.""",
     ["cartographer/sensor/internal/ordered_multi_queue.cc",
      "cartographer/sensor/internal/collator.cc",
      "cartographer/sensor/internal/trajectory_collator.cc"],
     [("merge sort of the queues", "cartographer/sensor/internal/ordered_multi_queue.cc"),
      ("collators", "cartographer/sensor/internal/collator.cc")],
     "explicit-state model of the merge; every model history replayed on the real code",
     """Exhaustive to 5-7 (thorough: 8-9) operations over 1-3 trajectories
     with 1-3 sensors each, time steps 0-2.""")

prop("P12", "Synchronised range data: each point once, at its own time and origin",
     """Merging the messages of several range sensors yields every
     measurement at most once, sorted by its time, with the absolute
     acquisition time, origin and intensity it had in its sensor's message.
     Output times never go backwards, no point is later than its output, and
     the only points missing are those which lie before an output that was
     already given. There is output as soon as every sensor has reported or
     one sensor reports a second time.""",
     ["histories", "inputs"],
     """All sequences of messages of the bounded length over up to three
     sensors, message shapes, time steps and presence of intensities.""",
     """Tests use fixed sequences; double delivery or a wrong time offset
     shows only for particular overlaps of messages.""",
     ["cartographer/mapping/internal/range_data_collator.cc",
      "cartographer/mapping/internal/range_data_collator.h"],
     [("cropping and merging", "cartographer/mapping/internal/range_data_collator.cc")],
     "explicit-state model of the synchronisation, replayed in lock step on the real code",
     """Exhaustive for 5-6 messages, 1-3 sensors, 3-4 message shapes.""")

prop("P13", "Compressed point clouds lose nothing but sub-millimetre precision",
     """Compressing a point cloud and decompressing it (directly, by
     iteration, or after a round trip through the serialized form) gives the
     same number of points, each within the 1 mm grid of one input point, with
     multiplicity; doing it again changes nothing. This holds for points in
     any block, of any sign, repeated points and empty clouds.""",
     ["inputs"],
     """All clouds of up to 2-4 points over a lattice that crosses block, sign
     and distance boundaries, and long lines of points over many blocks.""",
     """Tests use random clouds near the origin; an error in block keys or bit
     packing shows only for certain coordinates or block sizes.""",
     ["cartographer/sensor/compressed_point_cloud.cc",
      "cartographer/sensor/compressed_point_cloud.h"],
     [("bit packing and blocks", "cartographer/sensor/compressed_point_cloud.cc")],
     "exhaustive enumeration of small clouds on the real code",
     "Exhaustive over the lattice described in the evidence; positions within 500 m.")

prop("P14", "Voxel filters keep exactly one input point per occupied voxel",
     """The voxel filter returns a subset of its input in the original order,
     with exactly one point for each occupied voxel, for every type of cloud,
     and keeps intensity, time and origin with their point. The adaptive
     filter drops points out of range, keeps a cloud that is already sparse
     enough as it is, and otherwise thins it out to the largest voxels (up to
     the maximum, within 10%) that leave at least the required number of
     points whenever its search range allows that.""",
     ["inputs", "configurations"],
     """All clouds of the bounded number of points over a lattice of sites in
     and across voxels, and all combinations of sizes, spacings and options
     for the adaptive filter.""",
     """Tests use a few points with one resolution; key collisions or a
     mismatch between points and attributes need particular positions.""",
     ["cartographer/sensor/internal/voxel_filter.cc",
      "cartographer/sensor/internal/voxel_filter.h"],
     [("voxel keys and filters", "cartographer/sensor/internal/voxel_filter.cc")],
     "exhaustive enumeration of small clouds on the real code",
     "Exhaustive for up to 4 (5) points over 13 sites, 3 resolutions, and the listed options.")

prop("P15", "Containers by id and by time behave like sorted maps under trimming",
     """The containers of nodes and submaps behave like a map sorted by
     trajectory and index under every history of appending, inserting with
     gaps and trimming: lookup, ranges, sizes, iteration in both directions
     and search by time agree with it, and appending never reuses an index.
     Trimming a node from time-indexed data removes exactly the data which no
     remaining node needs, including for the first and last node, and never
     touches another trajectory.""",
     ["histories"],
     """All histories of the bounded number of operations over up to three
     trajectories, all gap patterns, all orders of trimming.""",
     """Tests check a few insertions; wrong iteration or search needs
     particular gap patterns left by trimming.""",
     ["cartographer/mapping/id.h", "cartographer/sensor/map_by_time.h"],
     [("MapById", "cartographer/mapping/id.h"),
      ("MapByTime", "cartographer/sensor/map_by_time.h")],
     ENUM,
     """Exhaustive to 6-8 (9) operations; after a trajectory's last element
     was trimmed nothing is appended to it (documented precondition).""")

prop("P18", "2D grids keep every cell's value through growth, finishing and copies",
     """A 2D probability grid or TSDF behaves like an unbounded sheet of
     unknown cells: under every history of growing towards points, setting,
     updating, finishing an update, cropping and conversion to and from the
     serialized form, each cell keeps the value last given to it at the same
     place in the world. A cell is updated at most once between two finishes,
     cells outside and cells never touched read as unknown, the limits contain
     every point grown to, cropping keeps all known cells, and the texture
     sent to a client shows exactly the known cells.""",
     ["histories", "inputs"],
     """All histories of the bounded number of operations over a small set of
     cells and of growth points in every direction.""",
     """Tests call each function once on one grid; lost or shifted cells show
     only after particular combinations of growth, cropping and update.""",
     ["cartographer/mapping/2d/grid_2d.cc", "cartographer/mapping/2d/grid_2d.h",
      "cartographer/mapping/2d/probability_grid.cc",
      "cartographer/mapping/internal/2d/tsdf_2d.cc",
      "cartographer/mapping/2d/map_limits.h"],
     [("growth, update markers, cropping", "cartographer/mapping/2d/grid_2d.cc"),
      ("probability grid", "cartographer/mapping/2d/probability_grid.cc"),
      ("TSDF", "cartographer/mapping/internal/2d/tsdf_2d.cc")],
     "explicit-state model of the sheet, replayed in lock step on the real grids",
     "Exhaustive to 5-6 operations over the listed cells and growth points.")

prop("P19", "2D range data: returns hit, cells along the ray miss, nothing else",
     """Inserting range data into a 2D probability grid marks as hit exactly
     the cells which contain a return and as miss exactly the other cells
     which the rays from the origin to returns and misses pass through. A cell
     is changed once per insertion, a hit outweighs any number of misses, the
     grid grows to contain all of it, and no other cell changes, wherever the
     points lie relative to the origin and the border of the grid.""",
     ["inputs"],
     """All rays between the sub-cell positions of a small window in every
     direction, and all combinations of the bounded number of returns and
     misses over a lattice of points.""",
     """Tests compare a few rays; an error in a step of the line drawing shows
     only for certain slopes and sub-cell positions.""",
     ["cartographer/mapping/2d/probability_grid_range_data_inserter_2d.cc",
      "cartographer/mapping/internal/2d/ray_to_pixel_mask.cc"],
     [("ray casting", "cartographer/mapping/internal/2d/ray_to_pixel_mask.cc"),
      ("inserter", "cartographer/mapping/2d/probability_grid_range_data_inserter_2d.cc")],
     "exhaustive enumeration of rays and scans on the real code against exact geometry",
     "Exhaustive over all rays in the sub-cell window and scans of up to 2-3 points.")

prop("P20", "2D TSDF insertion: signed distances are right and stay in the band",
     """Inserting range data into a 2D TSDF changes only cells within the
     truncation distance of a return along its ray (and the free space before
     it when that is asked for). Each value is the weighted mean of the signed
     distances observed, positive on the side of the sensor, never beyond the
     truncation distance; weights add up to the maximum weight and never
     beyond it.""",
     ["inputs", "configurations"],
     """All scans of the bounded number of returns over a lattice, repeated
     insertion, all settings of the weighting options.""",
     """Tests use one vertical wall; sign and weighting errors depend on
     direction, order and option.""",
     ["cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.cc",
      "cartographer/mapping/internal/2d/tsd_value_converter.h",
      "cartographer/mapping/internal/2d/normal_estimation_2d.cc"],
     [("inserter", "cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.cc")],
     ENUM,
     "Exhaustive over lattice scans of up to 2-3 returns and the option settings listed.")

prop("P21", "Active submaps: two overlap, each gets its range data, then is finished",
     """With N range data per submap, the I-th range data inserted goes into
     every submap started within the last 2N insertions and into no other. A
     new submap starts every N insertions at the pose of that insertion, there
     are never more than two active ones, and a submap is reported finished
     exactly when it holds 2N range data. A finished submap never changes
     again, and its contents equal those of all its range data inserted into
     an empty grid. The serialized form of a submap gives back the same
     submap. In 2D and in 3D.""",
     ["histories", "configurations"],
     """All histories of insertions of the bounded length over a few scans,
     all small N, 2D and 3D.""",
     """Tests run one history; a submap finished one scan early or late, or
     fed after it was finished, skews every later match.""",
     ["cartographer/mapping/2d/submap_2d.cc", "cartographer/mapping/3d/submap_3d.cc"],
     [("2D life cycle", "cartographer/mapping/2d/submap_2d.cc"),
      ("3D life cycle", "cartographer/mapping/3d/submap_3d.cc")],
     "explicit-state model of the life cycle, replayed in lock step on the real code",
     "Exhaustive over the histories listed in the evidence, N from 1 to 4.")

prop("P22", "3D hybrid grids keep every voxel's value, however far the grid grows",
     """A 3D hybrid grid behaves like an unbounded map from voxels to values,
     with unknown as default: under every history of setting, updating,
     finishing and copying through the serialized form, each voxel holds what
     was last stored in it. A voxel is updated once between two finishes;
     iteration gives every voxel that was stored, once, with its index and
     value. Points and voxel centres convert to each other exactly within half
     a voxel, on both sides of zero.""",
     ["histories", "inputs"],
     """All histories of the bounded number of operations over voxels on both
     sides of every boundary between leaves, blocks and grid sizes.""",
     """Tests store random voxels near the origin; an index error needs a
     particular boundary or growth in a particular order.""",
     ["cartographer/mapping/3d/hybrid_grid.h"],
     [("nested and dynamic grids", "cartographer/mapping/3d/hybrid_grid.h")],
     "explicit-state model of the voxel map, replayed in lock step on the real grid",
     "Exhaustive to the number of operations in the evidence over the boundary voxels.")

prop("P23", "3D range data: returns hit, the band before them is free, nothing else",
     """Inserting range data into a 3D hybrid grid marks as hit exactly the
     voxels which contain a return, and as miss the configured number of
     voxels before it on the ray to the origin, never beyond the origin. A
     voxel is changed once per insertion and a hit outweighs misses. The
     intensity grid averages the intensities of the hits in each voxel, and
     nothing else changes.""",
     ["inputs", "configurations"],
     """All scans of the bounded number of returns over a lattice around the
     origin, all numbers of free space voxels, with and without intensities.""",
     """Tests use four returns; wrong voxels depend on direction, distance and
     the number of free voxels.""",
     ["cartographer/mapping/3d/range_data_inserter_3d.cc"],
     [("inserter", "cartographer/mapping/3d/range_data_inserter_3d.cc")],
     ENUM,
     "Exhaustive over lattice scans of up to 2-3 returns and the option settings listed.")

for _id, _d in (("P03", "2D"), ("P04", "3D")):
    prop(_id, "%s constraint search delivers exactly the constraints asked for, once" % _d,
         """After any intermingling of constraint requests and end-of-node
         notifications, from one or several threads, followed by WhenDone, the
         callback runs exactly once, in the thread pool, after all of them have
         been computed; it gets one constraint (with the right node, submap,
         weights and relative pose) for each request that matches well enough
         and none for requests that are too far away or do not match, and then
         another cycle can follow, also started from the callback. The number
         of finished nodes never decreases nor exceeds the nodes notified, and
         local requests are subsampled per submap at the configured ratio. No
         schedule deadlocks, races or touches freed memory.""",
         ["schedules", "programs"],
         """All programs of two nodes with up to two requests each (local, global,
         too far, not matching; same or different submaps), one or two clients,
         1-2 workers, one or two cycles, deletion of a scan matcher in between,
         and all interleavings up to the preemption bound.""",
         """The builder's unit test uses a fake pool on one thread; results lost or
         delivered twice or early depend on how construction tasks, match tasks,
         end-of-node and WhenDone tasks interleave.""",
         ["cartographer/mapping/internal/constraints/constraint_builder_%s.cc" % _d.lower(),
          "cartographer/mapping/internal/constraints/constraint_builder_%s.h" % _d.lower(),
          "cartographer/common/fixed_ratio_sampler.cc"],
         [("request and task graph",
           "cartographer/mapping/internal/constraints/constraint_builder_%s.cc" % _d.lower())],
         SCHED,
         """Exhaustive over schedules with at most 1 (thorough: 2) preemptions for
         the bounded programs, with the real matchers, Ceres refinement and
         thread pool; sequential consistency plus a happens-before race check.""")

prop("P24", "2D branch-and-bound matching finds the best-scoring pose of the window",
     """Whenever the fast 2D correlative matcher reports a match, its score is
     that of the returned pose and no pose of the search window (or, for
     full-submap matching, of the whole submap and all angles) scores higher;
     it reports a match exactly if the best score exceeds the threshold.
     The depth of the search changes none of this.""",
     ["inputs", "configurations"],
     """All bounded grids (probability and TSDF), point clouds, initial poses,
     windows, branch-and-bound depths and thresholds enumerated.""",
     """Tests match a few random shapes and compare with the true pose; a bound
     that is too tight prunes the optimum only for particular grids, offsets
     and depths.""",
     ["cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc",
      "cartographer/mapping/internal/2d/scan_matching/correlative_scan_matcher_2d.cc"],
     [("precomputation grids and branch and bound",
       "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc")],
     ENUM + ", against brute force over the window",
     """Exhaustive over the enumerated grids, clouds, windows and depths;
     floating-point scores are compared with a tolerance, inputs on exact cell
     boundaries are avoided.""")

prop("P25", "3D branch-and-bound matching finds the best-scoring pose of the window",
     """Whenever the fast 3D correlative matcher reports a match, its score is
     that of the returned pose and no pose of the search window (or, for
     full-submap matching, of the whole submap and all yaw angles) that passes
     the rotational and low-resolution score filters scores higher; it reports
     a match exactly if the best such score exceeds the threshold. The depth of
     the search and the resolution of its upper levels change none of this.""",
     ["inputs", "configurations"],
     """All bounded voxel grids, point clouds, initial poses, windows, depths,
     full-resolution depths and filter thresholds enumerated.""",
     """Tests match a few random poses of one shape; a bound that is too tight
     prunes the optimum only for particular voxels, offsets and depths.""",
     ["cartographer/mapping/internal/3d/scan_matching/fast_correlative_scan_matcher_3d.cc",
      "cartographer/mapping/internal/3d/scan_matching/precomputation_grid_3d.cc",
      "cartographer/mapping/internal/3d/scan_matching/low_resolution_matcher.cc",
      "cartographer/mapping/internal/3d/scan_matching/rotational_scan_matcher.cc"],
     [("search", "cartographer/mapping/internal/3d/scan_matching/fast_correlative_scan_matcher_3d.cc"),
      ("bounds", "cartographer/mapping/internal/3d/scan_matching/precomputation_grid_3d.cc")],
     ENUM + ", against brute force over the window",
     """Exhaustive over the enumerated grids, clouds, windows and depths;
     scores are compared with a tolerance of the 8-bit quantisation.""")

for _id, _d in (("P26", "2D"), ("P27", "3D")):
    prop(_id, "%s real-time correlative matching returns the best weighted candidate" % _d,
         """The real-time %s correlative matcher returns the pose of its search
         window (all translations and rotations on its grid, the initial pose
         included) with the highest score, where a candidate's score is its mean
         cell score discounted by the configured translation and rotation
         costs, and returns that score.""" % _d,
         ["inputs", "configurations"],
         """All bounded grids, point clouds, initial poses, windows and weights
         enumerated.""",
         """Tests check that one shape is found again; missing a border candidate
         or weighing it wrongly needs a map whose optimum lies exactly there.""",
         ["cartographer/mapping/internal/%s/scan_matching/real_time_correlative_scan_matcher_%s.cc"
          % (_d.lower(), _d.lower())],
         [("candidate scoring", "cartographer/mapping/internal/%s/scan_matching/"
           "real_time_correlative_scan_matcher_%s.cc" % (_d.lower(), _d.lower()))],
         ENUM + ", against brute force over the window",
         """Exhaustive over the enumerated grids, clouds, windows and weights;
         scores are compared with a tolerance.""")

prop("P28", "Files and proto streams: written means readable, failures are reported",
     """What is written to a proto stream or through the stream file writer and
     closed with success reported is on disk completely and is read back as
     the same messages in the same order, then a clean end. If the file cannot
     be opened, or the disk fills up at any byte, this is reported by a failing
     operation or by Close() at the latest. A proto stream cut off at any byte
     yields only messages that were written, in order, without crash or
     endless loop, and never an invented or altered one; a header written
     afterwards replaces exactly the start of the file.""",
     ["crash points", "histories"],
     """All bounded sequences of messages (empty, small, larger than a buffer)
     and writer operations; every truncation point and every byte at which the
     disk may be full.""",
     """Tests write and read one stream that succeeds; a partial write is only
     visible at particular offsets and often only when buffers are flushed on
     closing.""",
     ["cartographer/io/proto_stream.cc", "cartographer/io/proto_stream.h",
      "cartographer/io/file_writer.cc"],
     [("message framing", "cartographer/io/proto_stream.cc"),
      ("error reporting of the file writer", "cartographer/io/file_writer.cc")],
     ENUM + " with a fault injected at every byte",
     """Exhaustive over all truncation and disk-full offsets of the enumerated
     streams; other corruption (bit flips, zero-filled blocks) is not claimed.""")

prop("P33", "Points processing pipelines: every stage does what it is configured to",
     """A points processing pipeline built from its configuration delivers to
     each stage exactly the points the stages before it let through: range
     filters, the fixed ratio sampler, the frame id filter, the voxel
     filter/outlier removal, coloring by intensity or frame and counting each
     drop, keep or change exactly the points they are configured for, keep
     intensities, colors and points together, pass the stream on as often as
     later stages ask for it again, and
     the PLY, PCD and XYZ files written describe exactly the points that
     reached them, with a header that matches the contents.""",
     ["inputs", "configurations"],
     """All bounded pipelines over the stages, and all bounded streams of
     batches over the batch shapes (empty, with or without colors and
     intensities, different frames).""",
     """Tests check single stages on one batch; mistakes show for combinations
     such as a stage after one that empties a batch, a restarted stream or
     batches with different attributes.""",
     ["cartographer/io/points_processor_pipeline_builder.cc",
      "cartographer/io/min_max_range_filtering_points_processor.cc",
      "cartographer/io/vertical_range_filtering_points_processor.cc",
      "cartographer/io/fixed_ratio_sampling_points_processor.cc",
      "cartographer/io/frame_id_filtering_points_processor.cc",
      "cartographer/io/outlier_removing_points_processor.cc",
      "cartographer/io/intensity_to_color_points_processor.cc",
      "cartographer/io/coloring_points_processor.cc",
      "cartographer/io/counting_points_processor.cc",
      "cartographer/io/ply_writing_points_processor.cc",
      "cartographer/io/pcd_writing_points_processor.cc",
      "cartographer/io/xyz_writing_points_processor.cc",
      "cartographer/io/points_batch.cc"],
     [("pipeline construction", "cartographer/io/points_processor_pipeline_builder.cc"),
      ("point removal", "cartographer/io/points_batch.cc")],
     ENUM + ", against a model of every stage",
     """Exhaustive over pipelines of up to 3 (thorough: 4) stages and streams of
     up to 3-4 (5) batches from the listed shapes; the X-ray and grid
     writers are not covered.""")

prop("P07", "Extrapolated poses continue the motion seen so far",
     """At the time of the last pose the extrapolated pose is that pose. After
     it, the orientation continues with the angular velocities measured by the
     IMU since then (without IMU: that of the poses or odometry) and the
     position with the velocity of the odometry, or else of the poses over the
     configured queue duration, so that a uniform motion is continued exactly,
     however poses, IMU data, odometry and queries interleave. The same
     question has the same answer until a new pose arrives; the estimated
     gravity direction stays upright; poses asked for together are those asked
     for one by one.""",
     ["histories", "inputs"],
     """All interleavings of poses, IMU data, odometry data and queries up to
     the bounded length, with equal and increasing times, for all listed
     motions, level and tilted.""",
     """Tests extrapolate one motion with regular data; trimming of queues,
     cached results and data at equal times only matter for particular
     orders.""",
     ["cartographer/mapping/pose_extrapolator.cc", "cartographer/mapping/imu_tracker.cc"],
     [("extrapolation", "cartographer/mapping/pose_extrapolator.cc"),
      ("orientation tracking", "cartographer/mapping/imu_tracker.cc")],
     ENUM + ", against the motion the data was made from",
     """Exhaustive for histories of 5-7 (thorough: 7-8) operations; data is
     exact (no noise), and never older than what was already used.""")

prop("P30", "Trajectory connectivity is exactly reachability, with the right times",
     """Two trajectories are reported as connected exactly if a chain of
     connections made so far links them (or they are the same); components are
     the classes of this relation over all tracked trajectories, connecting
     tracks what was untracked, connection counts are the number of direct
     connections, and the last connection time of a pair is the latest one made
     directly or, if later none was made, that of joining their components.
     Order of arguments and earlier queries do not matter, and concurrent users
     of the connected components see some sequential order.""",
     ["histories", "schedules"],
     """All bounded sequences of adding and connecting over up to 5
     trajectories, all queries after each step in two orders, and all schedules
     of two threads up to the preemption bound.""",
     """Tests connect a few ids once; path compression and joining of components
     go wrong only for particular orders.""",
     ["cartographer/mapping/internal/connected_components.cc",
      "cartographer/mapping/internal/trajectory_connectivity_state.cc"],
     [("disjoint sets", "cartographer/mapping/internal/connected_components.cc"),
      ("connection times", "cartographer/mapping/internal/trajectory_connectivity_state.cc")],
     ENUM + " and schedules",
     """Exhaustive for 4 (thorough: 6) operations on 3 and 3 (4) on 5
     trajectories; 2 threads x 2 operations with up to 2 preemptions.""")

prop("P31", "Trimming removes exactly the submaps that are not needed",
     """The overlapping submaps trimmer removes a finished submap exactly if
     fewer than the minimum number of its cells are among the configured number
     of freshest submaps covering that place of the world, whatever the
     submaps' shapes, poses, resolution and order, where the freshest submap is the one
     with the latest range data inserted; it acts only after enough submaps were
     added and copes with submaps deleted by others. The pure localization
     trimmer keeps exactly the last configured number of submaps of its
     trajectory, removes all of them and has the trajectory deleted once it is
     finished, and never touches other trajectories.""",
     ["histories", "inputs"],
     """All bounded sets of submaps (shapes, rotations, offsets, freshness),
     parameters, and histories of adding, deleting, finishing and trimming.""",
     """Tests trim a few axis-aligned unit squares once; counting errors show
     for other resolutions, large submaps and after deletions.""",
     ["cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc",
      "cartographer/mapping/pose_graph_trimmer.cc"],
     [("coverage", "cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc"),
      ("localization", "cartographer/mapping/pose_graph_trimmer.cc")],
     ENUM + ", against a model on sets of cells",
     """Exhaustive over 2-3 (thorough: 4) submaps of up to 4 shapes, rotated by
     multiples of 90 degrees and moved by whole cells, and histories of 5 (6)
     operations.""")

for _id, _d, _dim, _extra in (
    ("P11", "2d", "2D", """Returns outside the configured heights do not appear
     at all, and are not part of submaps or node data."""),
    ("P16", "3d", "3D", """If intensities are used, each of them stays with its
     point.""")):
    prop(_id, "Local %s SLAM places every scan where the robot was when it was taken" % _dim,
         """Whenever enough synchronized range data was accumulated after
         initialization, and only then, local SLAM yields one result; its time
         is that of the data, its pose agrees with the true motion (exactly,
         when odometry and IMU data are exact and trusted; within the matching
         resolution when scan matching has to find out how the robot moved),
         and every point lies where the sensor saw it at the point's own time,
         whatever the motion during the scan and the sensor's mounting. Points
         closer than the minimum range are dropped, those beyond the maximum
         become misses of the same direction. %s A result is inserted into
         the active submaps exactly if the motion filter demands it (first
         result, or enough time, distance or rotation since the last insertion)
         and then carries the pose, time, gravity alignment and filtered points
         as node data and the submaps of that moment, which contain what was
         inserted. Scans without usable points give no result and do not disturb
         later ones.""" % _extra,
         ["histories", "inputs"],
         """All listed motions, configurations (accumulation, ranges, IMU,
         sensors, submap sizes), and all bounded sequences of events (too close,
         empty, missing odometry or IMU data, order of sensors) or of changes of
         the motion.""",
         """Tests of local SLAM cover one motion per builder in 3D and none in
         2D; the result depends on the whole history of data.""",
         ["cartographer/mapping/internal/%s/local_trajectory_builder_%s.cc" % (_d, _d),
          "cartographer/mapping/internal/motion_filter.cc",
          "cartographer/mapping/internal/range_data_collator.cc"],
         [("local SLAM", "cartographer/mapping/internal/%s/local_trajectory_builder_%s.cc" % (_d, _d)),
          ("motion filter", "cartographer/mapping/internal/motion_filter.cc")],
         ENUM + ", against the simulated motion and room",
         """Exhaustive over the configurations and motions with 8 (thorough: 16)
         scans, 4-5 (5-6) events and 3-5 scans with changes of the motion, in
         one room with noiseless data.""")

for _id, _dim in (("P29", "2D"), ("P32", "3D")):
    prop(_id, "The map builder turns sensor data into one consistent %s map" % _dim,
         """Sensor data given to a trajectory of the map builder, in whatever
         order the data of different sensors and trajectories arrives, gives
         exactly one local SLAM result per scan, in the order of time, and
         exactly one node for each scan the motion filter lets through, with the
         announced id, data and submaps; by the time the trajectory is finished
         nothing is missing. All odometry (thinned out only by its own motion
         filter), fixed frame poses and landmark observations reach the pose
         graph. After the final optimization the global poses of nodes, submaps
         and landmarks agree with the true motion of all robots in a common
         frame once submaps were recognized. A map that was saved and loaded
         (in memory or as a file) lets a new trajectory find its place in it,
         or use a given initial pose right away; frozen, it does not move, and
         trajectories used for localization only keep the configured number of
         submaps and vanish when finished. Options and states of trajectories
         and images of submaps are reported for those that exist, and errors for
         others.""",
         ["histories", "inputs", "schedules"],
         """All orders of arrival of the data of all sensors around two scans,
         for all settings of collation; all bounded sequences of motions; all
         interleavings of two robots; all bounded localization runs with and
         without initial pose, trimming and frozen map.""",
         """The tests of the map builder use one robot, one motion and one order
         of arrival, and ask whether the trajectory's length is plausible.""",
         ["cartographer/mapping/map_builder.cc",
          "cartographer/mapping/internal/collated_trajectory_builder.cc",
          "cartographer/mapping/internal/global_trajectory_builder.cc",
          "cartographer/mapping/internal/motion_filter.cc",
          "cartographer/mapping/pose_graph.cc"],
         [("trajectories, saving and loading", "cartographer/mapping/map_builder.cc"),
          ("order of sensor data", "cartographer/mapping/internal/collated_trajectory_builder.cc"),
          ("local to global", "cartographer/mapping/internal/global_trajectory_builder.cc")],
         SCHED + " and explicit enumeration of sensor histories, against a simulated room",
         """Exhaustive over the listed orders, motions and interleavings with
         2-4 (thorough: up to 6) scans per robot; schedules of the background
         thread with one preemption for one interleaving of two robots (quick:
         only in 2D), otherwise none. One room, noiseless data. Histories in
         which a trajectory is finished while its data is held back by another
         one are a known finding.""")

for _id, _d, _dim, _extra, _fixed in (
    ("P34", "2d", "2D", """Sensor data in 3D enters with its part in the plane,
     odometry relative to the gravity alignment of the nodes.""",
     "The first submap does not move"),
    ("P35", "3d", "3D", """Unless the height is fixed, rotation and change of velocity
     between consecutive nodes are those integrated from IMU data, with a gravity constant and,
     if asked for, the IMU's orientation estimated per trajectory; if the height is fixed,
     heights do not change.""",
     "The position and yaw of the first submap do not change")):
    prop(_id, "The optimized %s poses have the least weighted error" % _dim,
         """After solving, poses of nodes, submaps and landmarks and the origins of
         fixed frames are a minimum of the sum of the squared weighted differences
         between relative poses and what was observed: constraints (those between
         submaps with a Huber loss), consecutive nodes' poses of local SLAM and odometry
         interpolated at their times, fixed frame poses interpolated at the nodes (with the
         tolerant loss if configured), and landmarks relative to the pose interpolated
         between the nodes before and after the observation (Huber loss). Every
         observation with data around its time counts, once and with its weights, and
         nothing else: no pairs with a missing node in between, no missing fixed frame
         poses, no landmarks seen before the first or after the last node. %s %s;
         nodes and submaps of frozen trajectories and frozen landmarks do not move at
         all.""" % (_extra, _fixed),
         ["inputs", "configurations"],
         """All sets of loop closures including wrong ones, frozen trajectories,
         missing and trimmed nodes, and all combinations of sensors (times of odometry,
         missing fixed frame poses, landmarks, IMU data) of a graph of two trajectories.""",
         """Tests reduce some error for one random graph; a wrong weight, loss, time or pair
         of nodes still reduces it.""",
         ["cartographer/mapping/internal/optimization/optimization_problem_%s.cc" % _d,
          "cartographer/mapping/internal/optimization/cost_functions/cost_helpers_impl.h",
          "cartographer/mapping/internal/optimization/cost_functions/landmark_cost_function_%s.h" % _d,
          "cartographer/mapping/internal/optimization/ceres_pose.cc"] +
         (["cartographer/mapping/internal/3d/imu_integration.h",
           "cartographer/mapping/internal/3d/rotation_parameterization.h"] if _d == "3d" else
          ["cartographer/mapping/internal/optimization/cost_functions/spa_cost_function_2d.cc"]),
         [("problem", "cartographer/mapping/internal/optimization/optimization_problem_%s.cc" % _d),
          ("errors", "cartographer/mapping/internal/optimization/cost_functions/cost_helpers_impl.h")],
         ENUM + ", the result judged by the error evaluated independently",
         """Exhaustive over the sets and combinations listed (thorough: all sets of loop closures
         with all sensors and four orientations) for a graph with 6 nodes and 3
         submaps and fixed noise. A local minimum counts: nearby poses, not all
         poses, are compared.""")

prop("P36", "Images of submaps and maps show every known cell at its place",
     """The texture of a 2D submap has one pixel per cell of the region shown, where
     its slice pose (relative to the submap) says; a cell is shown exactly if it is known, and shown
     with its probability (log odds) or its distance and weight (TSDF). The
     textures of a 3D submap, for both resolutions, are X-rays from above in the
     global frame: exactly the columns whose occupied cells span at least three cells
     are shown, with the average probability of occupied cells and of the free
     space between them. A painted map shows exactly the known cells of all submaps that
     have an image, at the place the submaps' poses give them relative to the reported origin, painted
     over each other in the order of ids, whether the submaps were given directly or
     read from a stream. Images keep their pixels when rotated or written as
     PNG, trajectories are drawn through all their nodes.""",
     ["inputs"],
     """All contents of small grids of both kinds, local poses and resolutions, all cell values; all
     contents of columns of 3D grids and poses; all placements of 1-3 submaps;
     all orientations listed; all small images.""",
     """Tests of textures and painting check no pixel positions; swapped axes,
     offsets of cropped grids and missing cells show only for asymmetric
     contents.""",
     ["cartographer/io/submap_painter.cc", "cartographer/io/image.cc",
      "cartographer/io/draw_trajectories.cc", "cartographer/mapping/2d/probability_grid.cc",
      "cartographer/mapping/internal/2d/tsdf_2d.cc", "cartographer/mapping/3d/submap_3d.cc"],
     [("2D textures", "cartographer/mapping/2d/probability_grid.cc"),
      ("3D textures", "cartographer/mapping/3d/submap_3d.cc"),
      ("painting", "cartographer/io/submap_painter.cc")],
     ENUM + ", against where the cells are",
     """Exhaustive over 5 (thorough: 6) cells with 4 values, all 32767 probabilities, 3
     columns with 7 contents, 1-2 (3) submaps at 12 poses, images up to 3 x 3
     pixels. Textures of a single pixel are not painted (Cairo treats
     them differently).""")

for _id, _d, _dim, _cost, _more in (
    ("P37", "2d", "2D", """bicubic interpolation of the costs of a probability grid, everything
     outside of the grid counting as not occupied, or the distance of a TSDF, bilinear and weighted
     with the interpolated weight, cells around which something is unknown counting with the largest
     distance""", """Without any known cell around the scan in a TSDF, the pose does not
     change."""),
    ("P38", "3d", "3D", """one minus the smoothly interpolated probability of each scan in its grid,
     and for scans with intensities the difference to the interpolated intensity, leaving out
     those above the threshold, with a Huber loss""", """If only yaw is to be optimized, the
     direction of gravity does not change.""")):
    prop(_id, "Non-linear %s scan matching returns the pose of least cost" % _dim,
         """The pose returned is a local minimum, and no worse than the initial pose, of
         the sum of the configured weights times the squares of: %s, averaged over the points of
         the scan; the distance to the target position; and the rotation relative
         to the initial pose. The initial cost reported is that of the
         initial pose, the final one that of a pose reached. %s""" % (_cost, _more),
         ["inputs", "configurations"],
         """All combinations of walls, corners and columns in completely or partially known
         maps, scans inside, across the border of and outside of the map, initial poses,
         target positions and weights listed.""",
         """Tests recover one pose of one point cloud within a wide tolerance; a wrong cost at
         the border of a cell, of unknown space or of a second scan, a wrong weight or
         target hardly moves it.""",
         ["cartographer/mapping/internal/%s/scan_matching/ceres_scan_matcher_%s.cc" % (_d, _d)] +
         (["cartographer/mapping/internal/2d/scan_matching/occupied_space_cost_function_2d.cc",
           "cartographer/mapping/internal/2d/scan_matching/tsdf_match_cost_function_2d.cc",
           "cartographer/mapping/internal/2d/scan_matching/interpolated_tsdf_2d.h"]
          if _d == "2d" else
          ["cartographer/mapping/internal/3d/scan_matching/interpolated_grid.h",
           "cartographer/mapping/internal/3d/scan_matching/intensity_cost_function_3d.h",
           "cartographer/mapping/internal/3d/scan_matching/rotation_delta_cost_functor_3d.h",
           "cartographer/mapping/internal/optimization/ceres_pose.cc"]),
         [("matcher", "cartographer/mapping/internal/%s/scan_matching/ceres_scan_matcher_%s.cc"
           % (_d, _d))],
         ENUM + ", the result judged by the cost evaluated independently",
         """Exhaustive over the combinations listed (quick about 110k in 2D, 100k in 3D). Poses
         are compared with those within 1 cm; when the solver stops early, as it does for one
         combination in thousands, initial poses within 1 cm are tried. Non-monotonic steps are
         checked for their costs only.""")


prop("P39", "Rigid transforms compose, invert, convert and interpolate as rigid motions",
     """Products, inverses and applications to points of 2D and 3D rigid transforms are those of the
     corresponding matrices. Conversions (angle-axis, yaw, roll-pitch-yaw, projection to 2D
     and embedding into 3D, protos, dictionaries of numbers) describe the same motion, and
     only unit rotations without NaN are valid. Interpolation between two timestamped
     transforms moves linearly and rotates along the shortest way, at both ends giving them exactly. A
     transform interpolation buffer has exactly the times from its earliest to its
     latest transform, looks up the interpolation of the two neighboring
     ones, and with a size limit keeps the newest ones, for every history of
     pushes, limits and clearing.""",
     ["inputs", "operation sequences"],
     """All pairs and triples of the 24 rotations of a cube and oblique ones at several places; all
     histories of 6 (thorough: 7) of 8 operations on a buffer, all times looked up after each.""",
     """Tests use single transforms; wrong signs, orders of products or quaternions of
     opposite sign only show for rotations which do not commute or are close to
     half turns, and limits only after histories of pushes.""",
     ["cartographer/transform/rigid_transform.h", "cartographer/transform/rigid_transform.cc",
      "cartographer/transform/transform.h", "cartographer/transform/transform.cc",
      "cartographer/transform/timestamped_transform.cc",
      "cartographer/transform/transform_interpolation_buffer.cc"],
     [("transforms", "cartographer/transform/rigid_transform.h"),
      ("interpolation", "cartographer/transform/timestamped_transform.cc"),
      ("buffer", "cartographer/transform/transform_interpolation_buffer.cc")],
     ENUM + ", against matrices",
     """Exhaustive over the transforms and histories listed; tolerance 1e-9 (float: 1e-5).""")

prop("P40", "Generated ground truth is exactly the loop closures that are plausible",
     """From a pose graph, one relation is generated, in order, for every loop closure constraint
     whose submap has a successor in the trajectory, between the first node inserted into
     that successor (the middle of the submap) and the constraint's node, if the
     distance covered between both is at least the given one, and the constraint's error relative
     to the optimized poses is within the given distance and angle. The relation has the times of
     both nodes, the pose expected from the constraint, and the distance covered. A text
     file of relations is read completely and exactly.""",
     ["inputs", "configurations"],
     """All starts of submaps, 1-2 loop closures between any of 4 submaps and 6 nodes with any of 9
     errors, before or after the other constraints, all thresholds; all files of up to 3 relations.""",
     """There is no test of the generation; a wrong frame or a node of the wrong submap gives plausible
     relations.""",
     ["cartographer/ground_truth/autogenerate_ground_truth.cc",
      "cartographer/ground_truth/relations_text_file.cc"],
     [("generation", "cartographer/ground_truth/autogenerate_ground_truth.cc")],
     ENUM + ", against the definition",
     """Exhaustive over the pose graphs listed, of one trajectory (as the code requires).""")

prop("P41", "Every configured value arrives where it belongs, and mistakes are refused",
     """Each value of the default configuration of the map builder and of trajectory builders,
     including optional trimmers and filters, arrives in the option of the same
     name; changing any values changes exactly those options. Parameter
     dictionaries return what was written, including what they print; reading a key that is missing
     or of another type, or a negative number as non-negative, and keys that are never used
     or used twice are refused. Files are read from the first directory that has them,
     missing files and files included twice are refused.""",
     ["inputs", "configurations"],
     """All pairs of values of the default configuration changed; all numbers of uses (0-2) of
     the keys of a dictionary; all ways to read all types; all dictionaries of two keys and a list,
     nested; all placements of two files including each other in two directories.""",
     """Tests create options but do not look at most fields; two fields exchanged go unnoticed
     while their values are plausible.""",
     ["cartographer/common/lua_parameter_dictionary.cc",
      "cartographer/common/configuration_file_resolver.cc",
      "cartographer/mapping/map_builder_interface.cc", "cartographer/mapping/map_builder.cc",
      "cartographer/mapping/trajectory_builder_interface.cc"],
     [("dictionaries", "cartographer/common/lua_parameter_dictionary.cc"),
      ("trajectory options", "cartographer/mapping/trajectory_builder_interface.cc")],
     ENUM + ", against the values as Lua lists them",
     """Exhaustive over all pairs of values of the default configuration.""")

prop("P42", "X-rays, grids and floors written from points show exactly the points",
     """An X-ray image has one pixel per column of voxels, seen along the x-axis of the configured
     view with y to the left and z up, over the bounding box of all points; its shade is the mean color of the
     column's points (black without colors), saturated by the logarithm of the number of its occupied voxels relative
     to the largest one times the configured factor, white where there is nothing. With separate floors there is
     one image per floor, of exactly the batches starting within its time spans. Floors of a trajectory are
     the heights at which it was for a long distance, ordered by height, with the times of all pieces at that
     height; other short pieces belong to the floors before and after them. A probability grid
     written as image shows every known cell of the grid into which all batches were inserted,
     cropped to the known cells; written as proto, it is this grid, as is a hybrid grid. Trajectories are drawn
     where they were. All points are passed on unchanged.""",
     ["inputs", "configurations"],
     """All sets of 6 voxels in up to 2 batches, 4 views, 3 factors; all trajectories of up to 6 (7) stays on 4
     levels, 1-3 floors with all times of 2 batches; 1 (2) scans of any of 6 points, also outside of the initial grid.""",
     """There are tests of the grids written for one scan, but none of X-rays or floors.""",
     ["cartographer/io/xray_points_processor.cc", "cartographer/mapping/detect_floors.cc",
      "cartographer/io/probability_grid_points_processor.cc",
      "cartographer/io/hybrid_grid_points_processor.cc"],
     [("X-rays", "cartographer/io/xray_points_processor.cc"),
      ("floors", "cartographer/mapping/detect_floors.cc"),
      ("probability grids", "cartographer/io/probability_grid_points_processor.cc")],
     ENUM + ", files parsed independently",
     """Exhaustive over the batches, configurations and trajectories listed. Lines of trajectories are
     not compared near sharp turns.""")
