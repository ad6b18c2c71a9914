prop('C01', 'Sensor data is handed over in one global time order',
     'Whatever the interleaving in which sorted sensor streams are added, the collated output is exactly their merge by timestamp (each stream in its own order), starting at the common start time of a trajectory, where of the data before the common start at most the last item of each stream is kept. Nothing is handed over while an unfinished stream that could still deliver something earlier is empty, everything that can be handed over is, and after flushing every remaining item has been handed over exactly once. The per-trajectory variant gives each trajectory its own merge, unaffected by the others.',
     ['inputs', 'histories'], 'all timestamps and all add/finish/flush interleavings of up to two trajectories with a few items per stream',
     'The unit tests use one or two fixed add sequences; ordering, blocking and common-start trimming depend on every interleaving of adds and every relative order of timestamps.',
     ['sensor/internal/ordered_multi_queue.cc', 'sensor/internal/collator.cc', 'sensor/internal/trajectory_collator.cc'],
     [('merge and common start', 'sensor/internal/ordered_multi_queue.cc'), ('collators', 'sensor/internal/collator.cc')])
prop('C02', 'Thread pool runs every task exactly once and after its dependencies',
     'Every task scheduled on the pool runs exactly once and only after all tasks it depends on have completed, including dependencies that completed, were scheduled, or were even released before the dependency was declared. All scheduled work whose dependencies complete is finished before the pool is destroyed, under every schedule, without deadlock, data race or use of released memory.',
     ['schedules', 'programs'], 'every interleaving within the preemption bound of small task graphs on one or two workers',
     'Thread interleavings: the tests run a few graphs under whatever schedule the OS picks.',
     ['common/task.cc', 'common/thread_pool.cc'], [('task state machine', 'common/task.cc'), ('work queue', 'common/thread_pool.cc')])
prop('C03', 'Blocking queue is a bounded FIFO that loses nothing',
     'Items come out of the blocking queue exactly once and in the order they were put in, the queue never holds more than its capacity, and timed operations that fail leave it unchanged. Waiting for an empty queue ends exactly when it is empty. Producers and consumers never deadlock while work is possible, under every schedule, and there are no data races.',
     ['schedules', 'histories'], 'every operation sequence up to the bound and every interleaving within the preemption bound',
     'The tests try a handful of sequences and one blocking scenario; schedules are left to the OS.',
     ['common/internal/blocking_queue.h'], [('queue', 'common/internal/blocking_queue.h')])
prop('C04', 'Time conversions are exact',
     'Universal time ticks (100 ns since 0001) convert to and from a time for every 64-bit value without loss, and a millisecond is exactly 10000 ticks. Durations converted to seconds and back differ by at most one tick, whole seconds are exact, and the conversion is monotone and keeps the sign.',
     ['inputs'], 'all 64-bit tick values; durations and seconds within the stated magnitude',
     'Tests check a few constants; rounding and overflow need all values.',
     ['common/time.cc', 'common/time.h'], [('conversions', 'common/time.cc')])
prop('C05', 'Angle normalisation and numeric helpers are correct',
     'Normalising an angle difference yields a value in [-pi, pi] that differs from the input by a whole number of turns. Clamping returns the nearest value of the closed interval, degrees and radians are inverse conversions, and powers and rounding helpers return their mathematical value.',
     ['inputs'], 'all doubles in the stated range',
     'Tests sample a few angles; boundary values around odd multiples of pi and rounding need all inputs.',
     ['common/math.h', 'common/port.h'], [('NormalizeAngleDifference, Clamp', 'common/math.h')])
prop('C06', 'Fixed-ratio sampling keeps the ratio after every pulse',
     'After every pulse the number of kept samples is the smallest count whose share of all pulses is at least the requested ratio, so ratio 1 keeps everything, and ratio 0 keeps nothing. Ratios outside [0, 1] are refused.',
     ['inputs', 'histories'], 'every ratio in [0,1] and every prefix of the pulse sequence up to the bound',
     'Tests use ratio 0.5, 0.25 and 1 only.',
     ['common/fixed_ratio_sampler.cc'], [('Pulse', 'common/fixed_ratio_sampler.cc')])
prop('C09', 'Occupancy quantisation and odds updates are faithful',
     'Storing a probability or correspondence cost and reading it back is monotone, clamps to the allowed range, has at most half a quantisation step of error, and is the identity on stored values; 0 always means unknown. Applying an observation to any stored value marks the cell as updated, stays in range, moves the probability in the direction of the observation (an occupied observation never lowers it, a free one never raises it), preserves order, and an unknown cell takes the probability of the observation.',
     ['inputs'], 'all floats and all 65536 stored values; odds of default and of symbolic observations',
     'Tests check a few values with tolerance; the tables have 32768 entries each with rounding.',
     ['mapping/probability_values.cc', 'mapping/probability_values.h', 'mapping/value_conversion_tables.cc'],
     [('quantisation', 'mapping/probability_values.h'), ('odds tables', 'mapping/probability_values.cc'), ('value tables', 'mapping/value_conversion_tables.cc')])
prop('C10', 'Grid addressing is consistent and growth preserves the map',
     'The centre of every 2D grid cell maps back to that cell, every point lies within half a cell of the centre of its cell, and containment is exactly the index rectangle. Growing the grid to include a point keeps resolution and alignment, keeps the value and known/unknown state of every cell at its place in the world, adds only unknown cells, and ends with the point inside.',
     ['inputs', 'histories'], 'all corners, indices and points within the bounds; any known subset of the starting grid',
     'Tests grow one grid once and check a few cells.',
     ['mapping/2d/map_limits.h', 'mapping/2d/grid_2d.cc', 'mapping/2d/probability_grid.cc'],
     [('index arithmetic', 'mapping/2d/map_limits.h'), ('GrowLimits', 'mapping/2d/grid_2d.cc')])
prop('C11', 'A scan updates each 2D cell at most once and hits win over misses',
     'Within one scan insertion every 2D grid cell is updated at most once, with a hit if any return lies in it and otherwise with a miss if a ray passes through it; when free space is not inserted there are no misses. Cells off the rays are unchanged, and after the scan is finished the next scan can update the cells again.',
     ['inputs', 'histories'], 'any observation order on a small grid and any return position within the bounds',
     'Tests insert one fixed scan.',
     ['mapping/2d/probability_grid.cc', 'mapping/2d/probability_grid_range_data_inserter_2d.cc', 'mapping/internal/2d/ray_to_pixel_mask.cc'],
     [('update marker', 'mapping/2d/probability_grid.cc'), ('CastRays', 'mapping/2d/probability_grid_range_data_inserter_2d.cc')])
prop('C12', 'Cropping and serialising a 2D grid lose no known cell',
     'The cropping window of a grid is the tight bounding box of its known cells (a single cell if there are none), and the cropped grid has every known cell at the same world position with the same value, all others unknown, with unchanged resolution. Serialising a grid and loading it reproduces limits, every cell, the known-cell box and the value bounds, and the loaded grid crops identically.',
     ['inputs', 'histories'], 'every subset of known cells of a small grid with any value of one of them',
     'Tests crop one grid and round-trip one grid.',
     ['mapping/2d/grid_2d.cc', 'mapping/2d/probability_grid.cc'],
     [('ComputeCroppedLimits / ComputeCroppedGrid', 'mapping/2d/probability_grid.cc'), ('ToProto', 'mapping/2d/grid_2d.cc')])
prop('C13', 'Ray masks contain exactly the pixels a ray crosses',
     'The pixel mask of a segment between two sub-pixel positions contains every pixel whose interior the segment crosses and only pixels the segment touches. No pixel is listed twice, both end pixels are present, consecutive pixels are neighbours, and this holds for steep, flat, degenerate and very long rays in both directions.',
     ['inputs'], 'all end points at the stated sub-pixel scales and extents',
     'Tests use about ten fixed segments.',
     ['mapping/internal/2d/ray_to_pixel_mask.cc'], [('RayToPixelMask', 'mapping/internal/2d/ray_to_pixel_mask.cc')])
prop('C14', 'The 3D hybrid grid is a sparse map that never loses a voxel',
     'The 3D voxel grid behaves as a map over all voxel indices with a default value: a write is read back at exactly its index, also after later growth, and no other voxel changes. Iteration visits exactly the voxels that differ from the default, each once with its index and value; serialising and loading reproduces every voxel; the centre of every voxel maps back to its index.',
     ['inputs', 'histories'], 'any two writes and one read at any voxel of selected blocks with all 16-bit values; all indices within the stated range',
     'Tests set random cells with one seed.',
     ['mapping/3d/hybrid_grid.h'], [('FlatGrid / NestedGrid / DynamicGrid', 'mapping/3d/hybrid_grid.h'), ('iterator', 'mapping/3d/hybrid_grid.h')])

prop('C07', 'Rigid transforms form a group and act consistently on points',
     'Composing 2D or 3D rigid transforms and then applying the result equals applying them one after the other; a transform followed by its inverse is the identity, and the identity changes nothing. Casts, embedding a planar motion in 3D and projecting it back keep the motion, and the proto messages keep every bit.',
     ['inputs'], 'fixed sets of rotations, all translations and points within the bounds',
     'Tests use a few random transforms with tolerance.',
     ['transform/rigid_transform.h', 'transform/transform.h', 'transform/transform.cc', 'transform/rigid_transform.cc'],
     [('Rigid2/Rigid3', 'transform/rigid_transform.h'), ('conversions', 'transform/transform.cc')])
prop('C08', 'Transform history interpolates only inside its time span',
     'Looking up a pose succeeds exactly between the earliest and latest retained time (inclusive), returns the stored pose at a stored time, and in between the linear blend of the translations and a rotation between the neighbouring ones. With a size limit the oldest entries are dropped first; entries out of time order and lookups outside the span are refused.',
     ['inputs', 'histories'], 'symbolic times and translations of short histories',
     'Tests look up one or two times in one history.',
     ['transform/transform_interpolation_buffer.cc', 'transform/timestamped_transform.cc'],
     [('Lookup/Push', 'transform/transform_interpolation_buffer.cc'), ('Interpolate', 'transform/timestamped_transform.cc')])
prop('C15', 'A 3D scan marks returns as hits and only the last voxels before them as free',
     'Inserting a 3D scan updates the voxel of every return as a hit, even when another ray passes through it, and the configured number of voxels nearest the return on the line from the sensor as free; every other voxel is unchanged, and a voxel is updated once per scan. Intensities up to the threshold are averaged per voxel and others ignored.',
     ['inputs'], 'any return position in a block of voxels, any number of free voxels up to the bound',
     'Tests insert one fixed scan several times.',
     ['mapping/3d/range_data_inserter_3d.cc', 'mapping/3d/hybrid_grid.h'],
     [('Insert', 'mapping/3d/range_data_inserter_3d.cc'), ('IntensityHybridGrid', 'mapping/3d/hybrid_grid.h')])
prop('C17', 'Point cloud compression loses less than a millimetre and no point',
     'A compressed point cloud decompresses to the same number of points, each within half a millimetre (plus float rounding) of its original in every coordinate, at any distance and on either side of zero. It survives its proto message and compares equal to itself; coordinates that cannot be represented are refused.',
     ['inputs'], 'all positions of a few points in blocks up to kilometres away',
     'Tests compress a few fixed points.',
     ['sensor/compressed_point_cloud.cc'], [('compression and iterator', 'sensor/compressed_point_cloud.cc')])
prop('C18', 'Voxel filtering keeps exactly one original point per voxel',
     'The voxel filter returns exactly one of the input points of every occupied voxel, unchanged, in input order and with its own intensity and time. The adaptive filter returns only points within the maximum range, returns everything if there are no more than wanted, keeps at least the wanted number whenever a fine enough voxel size allows it, and does not refine when the coarsest size suffices.',
     ['inputs'], 'every partition of a few points into voxels with symbolic coordinates',
     'Tests filter one small fixed cloud; the sampling is random.',
     ['sensor/internal/voxel_filter.cc'], [('VoxelFilter', 'sensor/internal/voxel_filter.cc'), ('AdaptiveVoxelFilter', 'sensor/internal/voxel_filter.cc')])
prop('C19', 'Point cloud operations keep points, intensities and times aligned',
     'Cropping by height keeps exactly the points in the closed range, in order and with their intensities; filtering by a predicate keeps points and intensities aligned; transforming keeps count, order, times and intensities. Range data keeps origin, returns and misses through crop, transform and its proto message, including the legacy fields.',
     ['inputs'], 'all coordinates and limits of small clouds',
     'Tests use two or three fixed points.',
     ['sensor/point_cloud.cc', 'sensor/point_cloud.h', 'sensor/range_data.cc', 'sensor/rangefinder_point.h'],
     [('CropPointCloud, copy_if', 'sensor/point_cloud.cc'), ('RangeData', 'sensor/range_data.cc')])
prop('C20', 'Node and submap storage behaves as a sorted map and trims exactly',
     'After any sequence of append, insert and trim, keyed storage returns the right item for each id, iterates in (trajectory, index) order in both directions, finds the first item not before a given time, and never reuses a trimmed last index. Trimming a node from time-keyed sensor data removes exactly the data strictly inside the gap it leaves, keeping one datum at each neighbouring node and everything outside.',
     ['inputs', 'histories'], 'all operation sequences up to the bound with symbolic ids and times',
     'Tests append a few ids and trim one.',
     ['mapping/id.h', 'sensor/map_by_time.h'], [('MapById', 'mapping/id.h'), ('MapByTime', 'sensor/map_by_time.h')])
prop('C21', 'Trajectory connectivity is exactly the transitive closure of connections',
     'Two trajectories are reported connected exactly if a chain of connections joins them (a trajectory is always connected to itself), components partition the trajectories, and the last connection time of a pair is the time of the latest connection that concerned their components, never going back.',
     ['histories'], 'all sequences of connections up to the bound between symbolic pairs at symbolic times',
     'Tests connect a few fixed pairs.',
     ['mapping/internal/connected_components.cc', 'mapping/internal/trajectory_connectivity_state.cc'],
     [('union-find', 'mapping/internal/connected_components.cc'), ('connection times', 'mapping/internal/trajectory_connectivity_state.cc')])
prop('C22', 'Motion filter drops a pose only if time, distance and angle are all small',
     'A pose is dropped exactly if time, distance and rotation angle since the last kept pose are all within their limits, and is kept otherwise; the first pose is always kept, and the reference moves only when a pose is kept.',
     ['inputs', 'histories'], 'all short pose sequences with symbolic times and translations',
     'Tests check each criterion once.',
     ['mapping/internal/motion_filter.cc'], [('IsSimilar', 'mapping/internal/motion_filter.cc')])
prop('C23', 'Range data of several sensors is merged in time order without duplication',
     'For messages arriving in time order, the points of several range sensors come out sorted by time within and across results, each at most once, with their own position, intensity and sensor origin and with a relative time that gives back the measurement time. A point is lost only if it is older than what was already handed over, and a message is delayed at most until the next message of its sensor.',
     ['histories'], 'all message orders of two sensors with symbolic times up to the bound',
     'Tests use one fixed sequence per scenario.',
     ['mapping/internal/range_data_collator.cc'], [('AddRangeData, CropAndMerge', 'mapping/internal/range_data_collator.cc')])
prop('C25', 'Active submaps take exactly their window of scans and then never change',
     'Every scan goes into the current submap and its predecessor; each submap takes exactly twice the configured number of scans, starting one configured number after its predecessor, contains exactly the scans of its window, has its origin at its first scan, and is then finished and never changed again. In 3D returns beyond the high-resolution range enter only the low-resolution grid. The proto message of a submap carries it over exactly.',
     ['histories'], 'scan histories up to the bound with any configured number of scans',
     'Tests use one configured number and check counts only.',
     ['mapping/2d/submap_2d.cc', 'mapping/3d/submap_3d.cc'],
     [('ActiveSubmaps2D', 'mapping/2d/submap_2d.cc'), ('ActiveSubmaps3D', 'mapping/3d/submap_3d.cc')])

prop('C16', 'A signed-distance map stores, merges and carries over distances faithfully',
     'Signed distances and weights are stored to half a quantisation step, clamped to the configured range, with unknown kept apart. Inserting a scan gives cells on the ray within the truncation distance around a return their signed distance, merges repeated scans as weighted mean with a capped weight, leaves other cells alone, and works for rays of any slope and any growth of the grid. Growing, cropping and serialising keep distance and weight of every known cell.',
     ['inputs', 'histories'], 'all stored values; rays along the axes to symbolic distances and heights; symbolic cell contents',
     'Tests insert a few fixed rays into a large enough grid.',
     ['mapping/internal/2d/tsd_value_converter.h', 'mapping/internal/2d/tsdf_2d.cc', 'mapping/internal/2d/tsdf_range_data_inserter_2d.cc'],
     [('TSDValueConverter', 'mapping/internal/2d/tsd_value_converter.h'), ('TSDF2D', 'mapping/internal/2d/tsdf_2d.cc'), ('InsertHit, UpdateCell', 'mapping/internal/2d/tsdf_range_data_inserter_2d.cc')])
prop('C26', 'Precomputed multi-resolution grids bound the map from above',
     'Every cell of a precomputed 2D grid of some width holds exactly the maximum map score over the window of that width starting there, also across and outside the map border. In 3D full-resolution levels hold the exact window maximum and reduced levels bound every window they stand for from above without inventing values. Level zero is the map itself, quantised to 8 bits.',
     ['inputs'], 'every content of small maps out of four values per cell, all window positions and widths',
     'Tests compare one random grid.',
     ['mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc', 'mapping/internal/3d/scan_matching/precomputation_grid_3d.cc', 'mapping/internal/3d/scan_matching/fast_correlative_scan_matcher_3d.cc'],
     [('PrecomputationGrid2D', 'mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc'), ('PrecomputeGrid', 'mapping/internal/3d/scan_matching/precomputation_grid_3d.cc')])
prop('C27', 'Correlative scan matching finds the best pose of its search window',
     'The branch-and-bound matchers (2D and 3D) report a match exactly if some pose of the search window scores above the threshold (and, in 3D, passes the low-resolution and rotational tests), and return the best such score with a pose of the window that has it. The real-time matchers return the pose with the best score after damping by displacement and rotation. Pruning never loses the optimum, for any depth.',
     ['inputs'], 'all contents of several map cells out of three or four values, several windows, depths and thresholds',
     'Tests match one shape at a time and only compare with the known pose.',
     ['mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc', 'mapping/internal/2d/scan_matching/correlative_scan_matcher_2d.cc', 'mapping/internal/2d/scan_matching/real_time_correlative_scan_matcher_2d.cc', 'mapping/internal/3d/scan_matching/fast_correlative_scan_matcher_3d.cc', 'mapping/internal/3d/scan_matching/real_time_correlative_scan_matcher_3d.cc', 'mapping/internal/3d/scan_matching/low_resolution_matcher.cc'],
     [('2D branch and bound', 'mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc'), ('search window', 'mapping/internal/2d/scan_matching/correlative_scan_matcher_2d.cc'), ('3D branch and bound', 'mapping/internal/3d/scan_matching/fast_correlative_scan_matcher_3d.cc')])
prop('C28', 'Rotational histograms rotate and compare consistently',
     'Rotating an angle histogram keeps its size and values, shifts it cyclically for whole buckets and blends neighbouring buckets linearly in between, for any angle. The match score of two histograms is 1 for proportional or empty ones and never above 1, and angles add to the initial angle. The histogram of a scan does not depend on the order of the points or where the scan is and adds up over height slices.',
     ['inputs'], 'symbolic histograms of a few buckets, several angles within and beyond one turn, symbolic small clouds',
     'Tests check one rotation and one comparison.',
     ['mapping/internal/3d/scan_matching/rotational_scan_matcher.cc'], [('RotateHistogram, Match, ComputeHistogram', 'mapping/internal/3d/scan_matching/rotational_scan_matcher.cc')])
prop('C24', 'Pose extrapolation continues the motion from the newest pose',
     'Extrapolation starts at the newest added pose (also if its time was extrapolated before) and continues with the linear velocity of the recent poses, or of the odometry once there are two readings, and with the angular velocity of poses or IMU; velocities span at least the configured duration and are zero before that. The orientation tracker turns measured gravity upwards, averages it exponentially with the time constant, keeps the yaw and integrates angular velocity in the moving frame; orientations stay unit quaternions.',
     ['inputs', 'histories'], 'short histories of poses, odometry and IMU readings with symbolic times, translations and rates',
     'Tests feed one long trajectory and compare the end.',
     ['mapping/pose_extrapolator.cc', 'mapping/imu_tracker.cc'], [('PoseExtrapolator', 'mapping/pose_extrapolator.cc'), ('ImuTracker', 'mapping/imu_tracker.cc')])
prop('C30', 'Trimming removes exactly the submaps that are no longer needed',
     'Pure localisation keeps exactly the configured number of newest submaps of its trajectory, leaves other trajectories alone, and once the trajectory is finished removes all of them, deletes the trajectory and is done. The overlapping-submaps trimmer removes exactly the finished submaps that are among the freshest in fewer cells than the configured area, for submaps and areas of any size, and only after more submaps were added than configured.',
     ['inputs', 'histories'], 'small sets of submaps with every known/unknown pattern and freshness order; one very large submap',
     'Tests use a handful of one-cell submaps.',
     ['mapping/pose_graph_trimmer.cc', 'mapping/internal/2d/overlapping_submaps_trimmer_2d.cc'],
     [('PureLocalizationTrimmer', 'mapping/pose_graph_trimmer.cc'), ('OverlappingSubmapsTrimmer2D', 'mapping/internal/2d/overlapping_submaps_trimmer_2d.cc')])
prop('C31', 'Saved streams give back exactly what was completely written',
     'A proto stream read back yields exactly the written messages in order. A file cut off at any byte yields exactly the messages written completely before, then reports the end, and never a damaged or extra message. A file without the magic number is refused. The output file writer reports success only if opening, every write and the flush at closing succeeded and everything is in the file.',
     ['inputs', 'crash_points', 'fault_sequences'], 'all message contents of a few bytes, every cut position, a fault at every file operation',
     'Tests write and read one stream without faults.',
     ['io/proto_stream.cc', 'io/file_writer.cc'], [('ProtoStreamWriter, ProtoStreamReader', 'io/proto_stream.cc'), ('StreamFileWriter', 'io/file_writer.cc')])
prop('C33', 'Point filters keep exactly the points that meet their criterion',
     'Range, vertical range, sampling-ratio, frame-id, colouring, intensity, counting and outlier stages keep exactly the points that meet their criterion (closed limits), in order and with their own intensities and colours, leave the rest of the batch alone, and pass on batches and the answer to the end of the stream. Outlier removal takes three passes and drops exactly the points whose voxel is crossed by too many rays per hit.',
     ['inputs'], 'batches of three points with symbolic coordinates and intensities, every combination of optional fields',
     'No tests cover these stages except sampling and removal of single points.',
     ['io/points_batch.cc', 'io/min_max_range_filtering_points_processor.cc', 'io/vertical_range_filtering_points_processor.cc', 'io/fixed_ratio_sampling_points_processor.cc', 'io/frame_id_filtering_points_processor.cc', 'io/coloring_points_processor.cc', 'io/intensity_to_color_points_processor.cc', 'io/outlier_removing_points_processor.cc', 'io/counting_points_processor.cc'],
     [('RemovePoints', 'io/points_batch.cc'), ('outlier removal', 'io/outlier_removing_points_processor.cc')])
prop('C34', 'Written point cloud files always match their header',
     'A PLY or PCD file always declares as many points as its body holds and exactly the fields every point has. The body holds all points of all batches in order with exact coordinates, 8-bit colours (rounded and clamped) and intensities. Batches are passed on unchanged and the file is closed at the end; a later batch lacking a declared field is refused instead of giving a broken file.',
     ['inputs', 'histories'], 'two batches of up to two points with every combination of optional fields and any coordinates',
     'Tests write one uniform stream.',
     ['io/ply_writing_points_processor.cc', 'io/pcd_writing_points_processor.cc', 'io/color.h'], [('PLY', 'io/ply_writing_points_processor.cc'), ('PCD', 'io/pcd_writing_points_processor.cc')])

prop('C32', 'A saved map state loads back completely',
     'Saving the map and loading it gives back everything: options of every trajectory, submaps (unfinished ones only if asked for, then without their constraints), nodes, global poses, constraints, trajectory data, IMU, odometry, fixed-frame and landmark data and landmark poses, each with the right ids after renumbering, frozen or not as asked. Every saved state can be loaded, also with trajectories that have no data, were deleted or are not registered yet. A state of an unsupported version, incomplete or out of order is refused.',
     ['histories', 'inputs'], 'two trajectories in eight combinations of states, submaps finished or not, sensor data of either, symbolic values; every order of the leading messages',
     'The round trip is not tested in this build; the deserialiser tests use one stream.',
     ['mapping/map_builder.cc', 'mapping/pose_graph.cc', 'io/internal/mapping_state_serialization.cc', 'io/proto_stream_deserializer.cc', 'mapping/trajectory_node.cc'],
     [('LoadState', 'mapping/map_builder.cc'), ('ToProto', 'mapping/pose_graph.cc'), ('WritePbStream', 'io/internal/mapping_state_serialization.cc')])
prop('C29', 'Sensor data reach local SLAM and the pose graph once and in order',
     'A trajectory gets the next number; its options, sensors, initial pose and localisation trimmer are recorded or handed on exactly as given. Its range, IMU and odometry data reach local SLAM, and its IMU, odometry (thinned by the motion filter if configured), fixed-frame and landmark data the pose graph, each exactly once, under its own trajectory and in global time order; sensors configured not to be collated are passed on at once and hold up nothing. Every match is reported once, with the new node if the scan was inserted. Finishing delivers the rest. A submap query gives the submap or an error.',
     ['histories', 'schedules', 'inputs'], 'ten pairs of sensor kinds, up to two data each at symbolic times, every interleaving, all flags, 2D and 3D',
     'The map builder tests do not run in this build; the collated builder has no test of interleavings.',
     ['mapping/map_builder.cc', 'mapping/internal/collated_trajectory_builder.cc', 'mapping/internal/global_trajectory_builder.cc', 'sensor/internal/collator.cc', 'sensor/internal/trajectory_collator.cc', 'sensor/internal/dispatchable.h'],
     [('AddTrajectoryBuilder', 'mapping/map_builder.cc'), ('HandleCollatedSensorData', 'mapping/internal/collated_trajectory_builder.cc'), ('AddSensorData', 'mapping/internal/global_trajectory_builder.cc')])
prop('C35', 'Sensor and node messages carry every measurement exactly',
     'IMU, odometry, fixed-frame, landmark and range data, trajectory nodes and sensor ids come back from their proto messages bit for bit (the clouds of nodes up to compression), with every optional part present or absent as before and nothing mixed up. The old point format is read; messages whose intensities do not match their points are refused.',
     ['inputs'], 'any time, any double and float bit pattern, up to two elements per list',
     'Tests convert one example of each.',
     ['sensor/imu_data.cc', 'sensor/odometry_data.cc', 'sensor/fixed_frame_pose_data.cc', 'sensor/landmark_data.cc', 'sensor/timed_point_cloud_data.cc', 'sensor/rangefinder_point.h', 'mapping/trajectory_node.cc', 'mapping/trajectory_builder_interface.cc', 'transform/transform.cc'],
     [('ToProto, FromProto', 'sensor/imu_data.cc'), ('ToProto, FromProto', 'sensor/timed_point_cloud_data.cc'), ('ToProto, FromProto', 'mapping/trajectory_node.cc')])
prop('C36', 'Optimisation residuals measure the disagreement between observations and poses',
     'The residual of a pose constraint (2D with automatic and with analytical derivatives, and 3D) is the difference between the observed relative pose and that of the two poses, translation and smallest rotation each times its weight; it vanishes exactly where they agree, and the analytical derivatives are its derivatives. A landmark residual is the same between the observation and the pose interpolated between the two nodes around it. IMU residuals compare measured velocity change less gravity, and measured rotation, with the poses, and scan matching priors grow with the distance from their target.',
     ['inputs'], 'translations and velocities symbolic, rotations and weights from fixed sets incl. large turns',
     'Tests evaluate one or two poses per cost function, most with zero rotation.',
     ['mapping/internal/optimization/cost_functions/cost_helpers_impl.h', 'mapping/internal/optimization/cost_functions/spa_cost_function_2d.cc', 'mapping/internal/optimization/cost_functions/spa_cost_function_3d.h', 'mapping/internal/optimization/cost_functions/landmark_cost_function_2d.h', 'mapping/internal/optimization/cost_functions/landmark_cost_function_3d.h', 'mapping/internal/optimization/cost_functions/rotation_cost_function_3d.h', 'mapping/internal/optimization/cost_functions/acceleration_cost_function_3d.h', 'mapping/internal/3d/scan_matching/rotation_delta_cost_functor_3d.h', 'common/math.h'],
     [('ComputeUnscaledError, InterpolateNodes', 'mapping/internal/optimization/cost_functions/cost_helpers_impl.h'), ('AnalyticalSpaCostFunction2D', 'mapping/internal/optimization/cost_functions/spa_cost_function_2d.cc')])
prop('C37', 'Submap pictures show each known cell at its place',
     'The texture given out for a submap has one pixel per cell of the known window (2D) or per column of obstructed voxels (3D), placed at its position relative to the submap, as bright as the cell is occupied; unknown cells are transparent and known ones are not. Unpacking and drawing the texture reproduces these values. A submap without observations gives an empty picture at the submap, never one far away.',
     ['inputs'], 'small grids with every stored value class, two or three poses, symbolic translations', 'Tests draw one hand-made picture.',
     ['mapping/2d/probability_grid.cc', 'mapping/internal/2d/tsdf_2d.cc', 'mapping/3d/submap_3d.cc', 'mapping/2d/submap_2d.cc', 'io/submap_painter.cc', 'mapping/submaps.h'],
     [('DrawToSubmapTexture', 'mapping/2d/probability_grid.cc'), ('Submap3D::ToResponseProto', 'mapping/3d/submap_3d.cc'), ('UnpackTextureData, DrawTexture', 'io/submap_painter.cc')])
prop('C38', 'The pose graph grows, searches and optimises consistently',
     'Nodes and submaps added to the pose graph get successive ids and keep their data. Each node has exactly one intra-submap constraint to every submap it was inserted into, with the relative pose local SLAM found. Every node is matched exactly once against each finished submap it was not inserted into: locally within a trajectory or shortly after a connection, otherwise as a sampled global search. Optimisation runs every configured number of nodes with all constraints found, poses that arrive meanwhile follow the correction of their trajectory, and waiting for the final optimisation ends, with all work done, under every schedule.',
     ['histories', 'schedules', 'configurations'], 'up to 9 nodes in 2 trajectories, submaps of 2 to 6 nodes, any delay of background work, <=2 preemptions', 'Tests add a few nodes with one configuration and run in one schedule.',
     ['mapping/internal/2d/pose_graph_2d.cc', 'mapping/internal/3d/pose_graph_3d.cc', 'mapping/internal/trajectory_connectivity_state.cc', 'mapping/internal/work_queue.h', 'mapping/pose_graph_data.h'],
     [('AddNode, ComputeConstraintsForNode, HandleWorkQueue, RunOptimization', 'mapping/internal/2d/pose_graph_2d.cc'), ('AddNode, ComputeConstraintsForNode, HandleWorkQueue, RunOptimization', 'mapping/internal/3d/pose_graph_3d.cc')])
prop('C39', 'Trimming and deleting remove exactly what they should',
     'Trimming submaps removes these submaps, the nodes that are in no other submap, and the constraints that mention either, and nothing else. Finished trajectories take no further data, deleted ones lose all their submaps, nodes and constraints. The graph keeps growing afterwards, ids are never used twice, and everything left can still be asked for and optimised.',
     ['histories', 'schedules'], 'two trajectories of 4 and 3 nodes, every set of finished submaps, 3 ways of removal, any delay of background work', 'One test trims one submap of a single trajectory.',
     ['mapping/internal/2d/pose_graph_2d.cc', 'mapping/internal/3d/pose_graph_3d.cc', 'mapping/pose_graph_trimmer.cc', 'mapping/id.h'],
     [('TrimmingHandle::TrimSubmap, DeleteTrajectory', 'mapping/internal/2d/pose_graph_2d.cc'), ('TrimmingHandle::TrimSubmap, DeleteTrajectory', 'mapping/internal/3d/pose_graph_3d.cc')])
prop('C40', 'A pose graph can be loaded, extended and queried from any thread',
     'Submaps, nodes, constraints, landmarks, trajectory data and sensor data added from a saved state are given out again as they were, frozen trajectories stay frozen and are passed to the optimisation as such, new trajectories start at their given initial pose relative to old ones, and sensor data of finished or deleted trajectories is ignored. Loading, finishing, freezing, landmark updates and queries run concurrently with background work without data race, deadlock or lost work.',
     ['histories', 'schedules'], 'one loaded trajectory with up to 3 submaps and nodes, symbolic poses and times, <=2 preemptions', 'No test that runs here loads a pose graph.',
     ['mapping/internal/2d/pose_graph_2d.cc', 'mapping/internal/3d/pose_graph_3d.cc', 'mapping/internal/work_queue.h', 'mapping/pose_graph.cc'],
     [('AddSubmapFromProto, AddNodeFromProto, SetLandmarkPose, GetInterpolatedGlobalTrajectoryPose', 'mapping/internal/2d/pose_graph_2d.cc'), ('AddSubmapFromProto, AddNodeFromProto', 'mapping/internal/3d/pose_graph_3d.cc')])
prop('C41', 'Constraint search asks for the right matches and reports each once',
     'Pairs of node and submap farther apart than the configured distance are never searched, of the others the configured share per submap, full-submap searches always. Each search uses the clouds of its node, the grids of its submap, the given relative pose and the score limit of its kind. Every match is refined and reported as exactly one constraint with the relative pose found, the loop closure weights and the right ids; the callback comes once, after all searches of the cycle, and further cycles work. A matcher is built once per submap, before its first use, and released on request. Concurrent callers cause no data race.',
     ['histories', 'schedules', 'inputs'], '2 submaps, 2 cycles of 2 nodes, all combinations of requests, 3 orders of execution; 2 callers with <=2 preemptions', 'No test that runs here builds constraints.',
     ['mapping/internal/constraints/constraint_builder_2d.cc', 'mapping/internal/constraints/constraint_builder_3d.cc', 'common/fixed_ratio_sampler.cc', 'common/task.cc'],
     [('MaybeAddConstraint, ComputeConstraint, RunWhenDoneCallback', 'mapping/internal/constraints/constraint_builder_2d.cc'), ('MaybeAddConstraint, ComputeConstraint, RunWhenDoneCallback', 'mapping/internal/constraints/constraint_builder_3d.cc')])
prop('C42', 'Local SLAM turns scans into poses, nodes and insertions as configured',
     'Returns nearer than the minimum range are dropped, those beyond the maximum range become misses of the configured length along the same ray; both limits belong to the valid range. Every point is placed with the pose predicted for its own time, and the configured number of scans is put together into one result (in 2D levelled by gravity and cropped in height). It is matched once, from the prediction (refined by the correlative search where configured), against the older submap, in 3D at both resolutions in the frame of that submap; without a submap the prediction is taken. The result has the time of its last scan and the matched pose, which is fed back to the motion estimate, and its range data are placed by it. It is inserted into the submaps exactly if the motion filter lets it through, and the node then holds the matched clouds, gravity alignment, pose and submaps. Scans without anything to match change nothing. Nothing is matched before the motion estimate has started (first IMU data where used, else first scan); odometry before is ignored, later odometry and IMU data are passed on once.',
     ['inputs', 'histories', 'configurations'], '5 scans (6 thorough) of 1-2 points at symbolic ranges and heights, 1 or 2 scans put together, symbolic match offsets, tracking frame turned or not', 'Tests follow one simulated 3D trajectory; 2D has no test.',
     ['mapping/internal/2d/local_trajectory_builder_2d.cc', 'mapping/internal/3d/local_trajectory_builder_3d.cc', 'mapping/internal/motion_filter.cc', 'mapping/internal/range_data_collator.cc', 'sensor/range_data.cc', 'sensor/point_cloud.cc'],
     [('AddRangeData, AddAccumulatedRangeData, ScanMatch, InsertIntoSubmap', 'mapping/internal/2d/local_trajectory_builder_2d.cc'), ('AddRangeData, AddAccumulatedRangeData, ScanMatch, InsertIntoSubmap', 'mapping/internal/3d/local_trajectory_builder_3d.cc')])
prop('C43', 'Scan matching costs measure how well the points fall on the map',
     'The cost of a scan under a pose has one residual per point: the scaled value of the map interpolated at the transformed point. In a 2D occupancy grid it is the bicubically interpolated correspondence cost, outside the map the largest cost; in a signed-distance grid the bilinearly interpolated distance, or the largest distance if a neighbouring cell is unknown, weighted by the interpolated weight relative to all points, and there is no result where nothing is known; in 3D one minus the smoothly interpolated probability, or the difference to the interpolated intensity, ignoring points brighter than the threshold. At a cell centre the value is that of the cell. Derivatives agree with the residuals. The low resolution score is the mean probability under the points. A 2D match consists of exactly the map term, with its weight shared by the points, and one term each towards target translation and initial rotation; it starts at the initial estimate and returns the pose found.',
     ['inputs', 'configurations'], 'small grids with known, unknown and outside cells, positions on a raster of eighths of cells, three rotations, two scales; symbolic initial, target and found pose for the match', 'Tests evaluate one or two points, mostly at cell centres and without rotation.',
     ['mapping/internal/2d/scan_matching/occupied_space_cost_function_2d.cc', 'mapping/internal/2d/scan_matching/tsdf_match_cost_function_2d.cc', 'mapping/internal/2d/scan_matching/interpolated_tsdf_2d.h', 'mapping/internal/3d/scan_matching/interpolated_grid.h', 'mapping/internal/3d/scan_matching/occupied_space_cost_function_3d.h', 'mapping/internal/3d/scan_matching/intensity_cost_function_3d.h', 'mapping/internal/3d/scan_matching/low_resolution_matcher.cc', 'mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.cc', 'common/internal/ceres_solver_options.cc'],
     [('OccupiedSpaceCostFunction2D, CreateOccupiedSpaceCostFunction2D', 'mapping/internal/2d/scan_matching/occupied_space_cost_function_2d.cc'), ('InterpolatedTSDF2D::GetCorrespondenceCost', 'mapping/internal/2d/scan_matching/interpolated_tsdf_2d.h'), ('InterpolatedGrid::GetInterpolatedValue', 'mapping/internal/3d/scan_matching/interpolated_grid.h'), ('CeresScanMatcher2D::Match', 'mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.cc')])
prop('C44', 'The optimisation problem consists of exactly the terms the data call for',
     'Solving the 2D optimisation problem poses to the solver one term per constraint between its submap and node, robust exactly for loop closures; one per pair of consecutive nodes of a trajectory that is not frozen with their relative pose of local SLAM, and a further one with the interpolated odometry where it covers both; one per landmark observation between the two nodes around it; and one per node with a fixed frame pose, each with its configured weight. Variables start at the present poses; the first submap, frozen trajectories and frozen landmarks stay fixed and everything else can move. What the solver found becomes the pose of that node, submap, landmark or fixed frame and nothing else changes. Trimmed nodes leave no terms, and data of trajectories without nodes are ignored.',
     ['histories', 'inputs', 'configurations'], 'two trajectories of up to 4 nodes and 4 submaps, with a trimmed node or a single one; times of odometry and observations on a raster; 2D only', 'No test that runs here builds an optimisation problem: the sources need an older Ceres.',
     ['mapping/internal/optimization/optimization_problem_2d.cc', 'mapping/internal/optimization/ceres_pose.cc', 'sensor/map_by_time.h', 'mapping/id.h', 'mapping/internal/optimization/cost_functions/spa_cost_function_2d.cc', 'mapping/internal/optimization/cost_functions/landmark_cost_function_2d.h'],
     [('OptimizationProblem2D::Solve, AddLandmarkCostFunctions, CalculateOdometryBetweenNodes', 'mapping/internal/optimization/optimization_problem_2d.cc'), ('MapByTime::Trim, lower_bound', 'sensor/map_by_time.h')])
prop('C60', 'Optimisation moves poses to where constraints agree',
     'Solving the pose graph changes only poses that are not frozen, never increases the total residual, and ends close to poses that satisfy consistent constraints.',
     ['inputs', 'histories'], 'any constraints and initial poses', 'Tests solve one or two noisy problems.',
     ['mapping/internal/optimization/optimization_problem_2d.cc', 'mapping/internal/optimization/optimization_problem_3d.cc'], [('Solve', 'mapping/internal/optimization/optimization_problem_2d.cc')])
prop('C61', 'Configuration files mean what they say',
     'Options read from a Lua configuration are exactly those written; missing, unused and mistyped keys are refused.',
     ['inputs'], 'any configuration text', 'Tests read a few snippets.',
     ['common/lua_parameter_dictionary.cc'], [('LuaParameterDictionary', 'common/lua_parameter_dictionary.cc')])
prop('C62', 'The remote interface behaves like the local one',
     'A client of the gRPC server observes the same results as a user of the local map builder.',
     ['inputs', 'histories', 'schedules'], 'any sequence of requests', 'Needs a server and schedules.',
     ['cloud/internal/map_builder_server.cc'], [('MapBuilderServer', 'cloud/internal/map_builder_server.cc')])
NA.update({
 'C60': 'Depends on the iterations of Ceres (a binary library: floating-point trust-region loops over sparse Cholesky factors) which cannot be encoded; optimization_problem_2d.cc and optimization_problem_3d.cc do not even compile against the installed Ceres, so nothing could be replayed. The residuals they minimise are decided in C36.',
 'C61': 'The behaviour is that of the Lua interpreter (a binary library with its own parser, garbage collector and longjmp error handling), outside the executor.',
 'C62': 'cloud/ is not built here (no gRPC), so neither its IR nor a replay is available.',
})
