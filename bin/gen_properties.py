import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=hook)))
CM='aslam_cv_common/'
p('C01','Reader-writer lock: exclusion and atomic upgrade',
 'While a writer holds a reader-writer lock (either variant) no other thread holds it for reading or writing; any number of readers may share it. An upgrade that succeeds turns the caller\'s read lock into the write lock with no other writer in between, at most one of several competing upgraders succeeds, and one that fails has given up its read lock. A scoped lock holds the lock from construction to the destruction of its last moved-to owner and releases it exactly once.',
 ['schedules','programs'],'every interleaving of every client program that uses the lock API correctly, both lock variants',
 'Mutual exclusion is a statement about all interleavings; the two existing tests run one OS-chosen schedule per run of a fixed reader/writer/delayed-reader program.',
 [CM+'include/aslam/common/reader-writer-lock.h',CM+'src/reader-writer-lock.cc',CM+'include/aslam/common/reader-first-reader-writer-lock.h',CM+'src/reader-first-reader-writer-lock.cc'],
 [('wait loops on reader count / writer flag / pending upgrade under one mutex',CM+'src/reader-writer-lock.cc'),('reader-first overrides',CM+'src/reader-first-reader-writer-lock.cc'),('move constructors nulling the source',CM+'src/reader-writer-lock.cc')],
 [('num_readers_','threads holding the read lock',CM+'include/aslam/common/reader-writer-lock.h'),('current_writer_','a thread holds the write lock',CM+'include/aslam/common/reader-writer-lock.h')],
 ['return of acquire/release/upgrade calls'])
p('C02','Reader-writer lock: progress, preference and in-use query',
 'No lock request is forgotten: whenever the lock\'s current holders and waiting requests permit some waiting request to be granted, one is granted, so correct clients never deadlock. In the default variant a reader that arrives while a writer is already waiting is not admitted before that writer, whereas in the reader-first variant waiting writers never delay a reader. The in-use query answers true whenever some thread holds the lock or waits for it, and false when none does.',
 ['schedules','programs'],'every interleaving of every correct client program, both lock variants',
 'A lost wake-up or a violated preference needs a particular order of request, wait and notify; the tests run a handful of schedules and would only hang or pass.',
 [CM+'src/reader-writer-lock.cc',CM+'src/reader-first-reader-writer-lock.cc'],
 [('notify on last reader / last-but-upgrader / writer finished',CM+'src/reader-writer-lock.cc'),('pending counters',CM+'src/reader-writer-lock.cc'),('isInUse',CM+'src/reader-writer-lock.cc')],
 [('num_pending_writers_','writers waiting',CM+'include/aslam/common/reader-writer-lock.h'),('pending_upgrade_','a reader waits to become writer',CM+'include/aslam/common/reader-writer-lock.h')],
 ['calls that never return in a quiescent state','return value of the in-use query'])
p('C03','Thread pool: every accepted task runs exactly once and delivers its result',
 'Every task a thread pool accepts is executed exactly once by some worker, with the arguments given, also when the pool is stopped or destroyed right afterwards: destruction returns only after all accepted tasks have finished. The future handed out delivers that execution\'s value or exception, and an exception thrown by a task neither kills a worker nor affects other tasks. A future is valid exactly if its task was accepted.',
 ['schedules','programs','histories'],'every interleaving of any number of enqueuing, waiting, stopping and destroying threads with the workers',
 'Exactly-once and drain-on-destruction quantify over interleavings of enqueue, stop and destruction with workers; the tests enqueue from one thread under one schedule.',
 [CM+'include/aslam/common/thread-pool.h',CM+'src/thread-pool.cc'],
 [('queue under mutex, packaged_task',CM+'include/aslam/common/thread-pool.h'),('worker loop, drain before exit, join in destructor',CM+'src/thread-pool.cc')],
 [('groupid_tasks_','queue of accepted, unstarted tasks',CM+'include/aslam/common/thread-pool.h'),('stop_','pool is stopping',CM+'include/aslam/common/thread-pool.h')],
 ['task start/end','future state','return of enqueue and of the destructor'])
p('C04','Thread pool: exclusivity groups are serial and first-in-first-out',
 'Tasks of the same exclusivity group never overlap and are executed in the order in which they were enqueued. Tasks are started in the order in which they were enqueued, except that a task whose group is busy is passed over until that group is free. Tasks of different groups, and tasks without a group, never wait for a group that is busy.',
 ['schedules','programs'],'every interleaving of enqueues into any mix of groups with any number of workers',
 'Ordering and non-overlap per group must hold for all schedules; the test sleeps random times and checks counters once.',
 [CM+'include/aslam/common/thread-pool.h',CM+'src/thread-pool.cc'],
 [('group guards and front-to-back scan',CM+'src/thread-pool.cc')],
 [('groupid_exclusivity_guards_','group currently being executed',CM+'include/aslam/common/thread-pool.h')],['task start/end'])
p('C05','Thread pool: work conservation, wait-for-empty and stop',
 'A worker is never left idle while a startable task is queued, so tasks that depend on other startable tasks make progress as long as a worker is free. Waiting for the empty queue returns only at a moment when nothing is queued or running and returns whenever that state persists, with any number of waiters. Stopping does not block, makes every later enqueue return an invalid future, and never leaves an accepted task unexecuted or a waiter blocked for ever; the active-thread count equals the number of tasks being executed.',
 ['schedules','programs','histories'],'every interleaving of enqueues, waits, stop and workers',
 'A lost notification shows as a hang only under one rare order of wait and notify; tests sample few schedules and do not mix waiters, stop and dependent tasks.',
 [CM+'include/aslam/common/thread-pool.h',CM+'src/thread-pool.cc'],
 [('single condition variable shared by workers and waiters',CM+'src/thread-pool.cc'),('stop flag',CM+'include/aslam/common/thread-pool.h')],
 [('active_threads_','workers executing a task',CM+'include/aslam/common/thread-pool.h')],['quiescent states','return of waitForEmptyQueue','numActiveThreads'])
PI='aslam_cv_pipeline/'
p('C06','Multi-camera pipeline: images are grouped by time into complete frames',
 'A frame set delivered by the multi-camera pipeline contains, for every camera of the rig, exactly one frame that was submitted for that camera, and all its frames lie within the timestamp tolerance of the time the set was opened with. An image joins the open set closest in time if that is within tolerance and opens a new set otherwise. No submitted image appears in two delivered sets, and sets are discarded exactly in these cases: an incomplete set when two consecutive later sets are complete while more than three are open, and a set that is not later than the one the user fetches with clearing. A complete set is otherwise discarded only by a drop-oldest submission.',
 ['schedules','histories','inputs'],'every order in which per-camera processing finishes, every timestamp pattern including drops, duplicates and late images',
 'Grouping depends on arrival order across worker threads and on drop patterns; the tests feed few regular sequences.',
 [PI+'src/visual-npipeline.cc',PI+'include/aslam/pipeline/visual-npipeline.h'],
 [('nearest open set within tolerance, drop detection, move of complete prefix',PI+'src/visual-npipeline.cc')],
 [('processing_','open sets by time',PI+'include/aslam/pipeline/visual-npipeline.h'),('completed_','complete sets not yet fetched',PI+'include/aslam/pipeline/visual-npipeline.h')],['fetched sets','complete/processing counts'])
p('C07','Multi-camera pipeline: output queue, blocking calls and shutdown',
 'Fetching the next set returns the oldest undelivered complete set, and fetch-latest returns the newest and discards everything older; each complete set is delivered at most once and is lost only to an explicit discard. A blocking fetch or submission waits exactly while the queue is empty or full, and every blocked caller is released by shutdown, after which blocking calls report failure. The drop-oldest submission never blocks and reports truthfully whether it discarded a set.',
 ['schedules','histories','programs'],'every interleaving of submitters, fetchers, shutdown and workers',
 'Wake-ups and queue bounds are schedule dependent; the tests exercise one consumer and one producer under OS scheduling.',
 [PI+'src/visual-npipeline.cc'],[('two condition variables and a shutdown flag',PI+'src/visual-npipeline.cc')],
 [('shutdown_','no further service',PI+'include/aslam/pipeline/visual-npipeline.h')],['return values of fetch and submit calls','quiescent states'])
p('C08','Identifiers: unique, validated, and faithfully convertible',
 'Identifiers generated in one process, by any number of threads, are valid and pairwise distinct. Equality, ordering and hashing of identifiers agree with the identifier\'s value, and conversion to hexadecimal text, to a fixed-width integer pair or to the wire message and back yields the same identifier. Text that is not exactly the hexadecimal form is rejected by returning false, and leaves the target unchanged.',
 ['schedules','inputs'],'all interleavings of generating threads; all identifier values; all input strings',
 'Tests draw a few random ids on one thread and try one or two malformed strings.',
 [CM+'include/aslam/common/hash-id.h',CM+'include/aslam/common/unique-id.h',CM+'include/aslam/common/internal/unique-id.h',CM+'src/internal/unique-id.cc'],
 [('random generation from seeded engine',CM+'src/internal/unique-id.cc'),('hex conversion',CM+'include/aslam/common/hash-id.h'),('proto conversion',CM+'include/aslam/common/unique-id.h')],[('val_','128 bit value',CM+'include/aslam/common/hash-id.h')],['API results'])
p('C09','Channel groups: a consistent typed map with deep copies',
 'A channel group behaves as a map from names to typed values: a channel is present exactly between its addition and its removal, reading returns the last value written through any handle, and adding a present or reading an absent channel is refused. Cloning yields an independent deep copy equal to the original (image contents may be shared), and equality of two groups holds exactly if they have the same names with equal values, is symmetric, and never blocks or aborts. These operations are atomic with respect to concurrent users of the same groups.',
 ['schedules','histories','inputs'],'all sequences of operations and all interleavings of threads on shared groups',
 'The existing channel tests are single threaded and cover one add/get.',
 [CM+'include/aslam/common/channel.h',CM+'src/channel.cc',CM+'include/aslam/common/channel-declaration.h'],
 [('mutex per group',CM+'include/aslam/common/channel.h'),('clone/compare',CM+'src/channel.cc')],[('channels_','name to channel map',CM+'include/aslam/common/channel.h')],['API results'])
p('C10','Channel serialization round-trips and rejects malformed input',
 'Serializing a channel value to a string or buffer and deserializing it yields an equal value, for every supported element type and every shape including empty. Deserialization of truncated or otherwise inconsistent input is refused (false or a failed assertion) without touching memory outside the input and the target, and never reports success with a value other than the one that would be written as exactly that input.',
 ['inputs'],'all channel values of all supported types; all byte strings as input',
 'Tests round-trip a few random matrices and never feed truncated input.',
 [CM+'include/aslam/common/channel-serialization.h',CM+'src/channel-serialization.cc'],[('header with rows/cols/type and size checks',CM+'include/aslam/common/channel-serialization.h')],None,['return value and decoded value'])
FR='aslam_cv_frames/'
p('C11','Keypoint data of a frame stays aligned across all channels and blocks',
 'After any sequence of setting, swapping, extending, selecting, clearing and discarding operations that the frame accepts, all per-keypoint channels of a frame describe the same keypoints: the values at one index were supplied for one keypoint. Descriptor blocks of different types occupy disjoint consecutive index ranges in the order they were added, and per-type access returns exactly that type\'s keypoints with index arithmetic consistent with the whole-frame access. Discarding untracked observations keeps exactly the tracked ones in order with all their data; serializing descriptors and reading them back is the identity.',
 ['histories','inputs'],'all sequences of mutators over frames with any number of keypoints and descriptor types',
 'Tests exercise each mutator in isolation on one frame.',
 [FR+'src/visual-frame.cc',FR+'include/aslam/frames/visual-frame.h'],[('block offsets and extend/set functions',FR+'src/visual-frame.cc'),('discardUntrackedObservations',FR+'src/visual-frame.cc')],[('channels_','per keypoint channels',FR+'include/aslam/frames/visual-frame.h')],['getters after each mutator'])
p('C12','Multi-camera frames: slots, timestamps, copies and equality',
 'A multi-camera frame returns at each camera index the frame last stored there and reports completeness, minimum and maximum timestamp exactly over the stored frames. Copy construction and assignment (including to itself) give an equal object whose frames are independent deep copies, and equality holds exactly if ids, rigs and all slots are equal, with empty slots only equal to empty slots.',
 ['histories','inputs'],'all sequences of set, unset, copy, assign and compare over rigs of any size',
 'Tests set frames once and compare a full copy; never partial frames or aliasing.',
 [FR+'src/visual-nframe.cc',FR+'include/aslam/frames/visual-nframe.h'],[('copy constructor, assignment, operator==',FR+'src/visual-nframe.cc')],[('frames_','slot per camera',FR+'include/aslam/frames/visual-nframe.h')],['API results'])
p('C13','Occupancy grid: counts, capacity, separation and strongest-point selection',
 'The grid\'s total equals the number of points retrievable from it, and every stored point lies in the cell containing its coordinates. Adding with a per-cell limit or minimum distance never exceeds the limit or stores two points closer than the distance, and evicts only points that are not stronger than the newcomer or than the conflicting point that is kept; the return value tells whether the point is now stored. Thinning to a maximum keeps points from the fullest cells last and, within a cell, always removes the weakest; masks built from the grid cover exactly the cells that are full.',
 ['histories','inputs'],'all sequences of insertions, insert-or-replace, resets and thinning with any geometry, including ties',
 'The occupancy-grid tests are not even built here and use one geometry and fixed points.',
 [CM+'include/aslam/common/occupancy-grid.h',CM+'include/aslam/common/occupancy-grid-inl.h'],[('addPointOrReplaceWeakestIfCellFull, addPointOrReplaceWeakestNearestPoints, removePointsFromFullestCellsUntilSize',CM+'include/aslam/common/occupancy-grid-inl.h')],[('grid_','points per cell',CM+'include/aslam/common/occupancy-grid.h')],['API results, enumeration of points after each call'])
p('C14','Timers and statistics: every sample is attributed once to its own tag',
 'Each tag name has one handle, distinct names have distinct handles and looking a name or handle up returns its partner. After any interleaving of sampling threads, count, total, mean, minimum, maximum and rolling-window values per tag are those of exactly the samples recorded for that tag since the last reset (which detaches the handles and timers that exist). A timer contributes one sample per start/stop pair, at most one on destruction, and none if never started or discarded; printing and exporting may run concurrently with all of this.',
 ['schedules','histories'],'all sequences and interleavings of sampling, reading, printing and resetting threads',
 'There are no tests of timing or statistics; concurrency cannot be sampled by unit tests.',
 [CM+'src/timer.cc',CM+'src/statistics.cc',CM+'include/aslam/common/statistics/accumulator.h',CM+'include/aslam/common/timer.h',CM+'include/aslam/common/statistics/statistics.h'],[('singleton registry with mutex',CM+'src/statistics.cc'),('rolling window accumulator',CM+'include/aslam/common/statistics/accumulator.h')],[('tag_map_','name to handle',CM+'include/aslam/common/statistics/statistics.h')],['getters'])
p('C15','Container helpers: erase, select and sample exactly as documented',
 'Erasing by index list removes exactly the listed positions and keeps the order of the rest, for every supported container and for empty lists. Keeping the n best elements leaves exactly the n smallest under the ordering, sorted; drawing n random elements yields n distinct positions of the input (all of it if n is at least its size) and no invented elements. Descriptor and keypoint containers of any column type are treated alike, and the median, mean, standard deviation and nested element count of a range are those of its elements.',
 ['inputs'],'all container contents and index lists, including empty, first, last and full lists',
 'Tests use a handful of small index lists.',
 [CM+'include/aslam/common/stl-helpers.h',CM+'include/aslam/common/stl-helpers-inl.h'],[('sorted index walk and compaction',CM+'include/aslam/common/stl-helpers-inl.h')],None,['resulting container'])
p('C16','Binary descriptor operations agree with bit-level semantics',
 'Setting, clearing, flipping and testing a bit of a binary descriptor affects and reports exactly that bit. The mean descriptor has each bit equal to the majority of the inputs\' bits under the documented rounding, the Hamming distance is the number of differing bits, and the nearest-to-mean, deviation and median-like selections derived from them are consistent with those definitions for every number and size of descriptors.',
 ['inputs'],'all descriptor contents, sizes and counts',
 'Tests use a few random descriptors of one size.',
 [CM+'include/aslam/common/descriptor-utils.h',CM+'include/aslam/common/feature-descriptor-ref.h',CM+'include/aslam/common/feature-descriptor-ref-inl.h',CM+'include/aslam/common/hamming-inl.h'],[('byte/bit addressing',CM+'include/aslam/common/feature-descriptor-ref-inl.h')],None,['API results'])
TR='aslam_cv_tracker/'
p('C17','Track identifiers: assigned once, propagated by matches, never mixed',
 'Applying frame-to-frame matches gives matched keypoints in the later frame the track identifier of their partner, creating a fresh identifier exactly if the partner has none. Fresh identifiers are globally distinct, also across threads and managers sharing a counter unless it is explicitly reset, and unmatched keypoints keep being untracked, so within a frame no two keypoints share a track identifier when matches are one-to-one. Keypoints that a detector finds or that are inserted later carry the values they were given, start untracked and leave every existing keypoint as it was.',
 ['histories','inputs','schedules'],'all match lists over frame sequences; all interleavings of id allocation',
 'Tests check one match list.',
 [TR+'src/track-manager.cc',TR+'include/aslam/tracker/track-manager.h',TR+'src/tracking-helpers.cc',TR+'include/aslam/tracker/tracking-helpers.h'],[('keypoint insertion',TR+'src/tracking-helpers.cc'),('shared atomic id provider',TR+'include/aslam/tracker/track-manager.h'),('applyMatchesToFrames',TR+'src/track-manager.cc')],[('track_ids','per keypoint id, -1 untracked',FR+'include/aslam/frames/visual-frame.h')],['track id channels after each call'])
MA='aslam_cv_matcher/'
p('C18','Keypoint matching between frames is one-to-one',
 'The two-frame keypoint matcher returns matches whose indices exist in their frames and in which every keypoint of either frame occurs at most once. Every match satisfies the configured search-window and descriptor-distance limits, and when two keypoints compete for the same partner the one with the smaller descriptor distance keeps it. A candidate is accepted only if it is clearly closer than the second closest (ratio test); keypoints that lost a competition get a partner that is still free if one is within the stricter limits. Matchers work for any descriptor size.',
 ['inputs'],'all pairs of frames, predictions and descriptors',
 'Tests run a few synthetic frames.',
 [MA+'include/aslam/matcher/gyro-two-frame-matcher.h',MA+'src/gyro-two-frame-matcher.cc'],[('matched bookkeeping and second round for inferior matches',MA+'src/gyro-two-frame-matcher.cc')],None,['returned matches'])
p('C19','Sensor descriptions and matrices survive a YAML round trip',
 'A sensor description or matrix written to YAML and read back is equal to the original, whatever its text or values; a matrix document with missing or inconsistent entries is refused rather than read as a different shape or value. A sensor read from a document carries exactly the identifier, topic and description the document contains, keeps what the document lacks except that a missing identifier is replaced by a fresh one, and never takes over a malformed identifier. A sensor is valid exactly if its identifier and its own part are.',
 ['inputs'],'all descriptions and matrices of all shapes; all malformed documents',
 'Tests round-trip single matrices (and are not built here).',
 [CM+'src/sensor.cc',CM+'include/aslam/common/sensor.h',CM+'include/aslam/common/yaml-serialization-eigen.h',CM+'include/aslam/common/yaml-serialization.h',CM+'include/aslam/common/yaml-file-serialization.h'],[('YAML converters',CM+'include/aslam/common/yaml-serialization-eigen.h')],None,['decoded values, return codes'])
CA='aslam_cv_cameras/'
p('C20','Camera rig: index, id and extrinsics stay consistent',
 'In a camera rig every camera index, camera identifier and extrinsic transformation refer to one another consistently after construction, modification and copying: looking up a camera by its identifier gives the index it is stored at and fails exactly for identifiers not in the rig. Cloning a rig gives an independent equal rig with the identity kept or renewed as documented, and equality of rigs is exact on ids, cameras and extrinsics.',
 ['histories','inputs'],'all sequences of rig construction and mutation',
 'Tests build one rig and query it.',
 [CA+'src/ncamera.cc',CA+'include/aslam/cameras/ncamera.h'],[('id to index map',CA+'src/ncamera.cc')],[('id_to_index_','lookup map',CA+'include/aslam/cameras/ncamera.h')],['lookups'])
p('C21','Time conversion and formatting is exact',
 'Conversions between nanoseconds, seconds, minutes and hours agree with integer arithmetic within the documented rounding, time differences of any sign are rendered with the digits of the exact value, and a timestamp is reported valid exactly if it is not the invalid marker.',
 ['inputs'],'all 64-bit timestamps','Tests check a few positive constants.',
 [CM+'include/aslam/common/time.h'],[('digit-count formatting',CM+'include/aslam/common/time.h')],None,['returned strings'])
p('C22','Gyro tracker: matched and flow-tracked keypoints across frames',
 'Tracking from one frame to the next returns one-to-one matches: every descriptor match of a keypoint whose predicted position lies in the image, plus one match for each keypoint that optical flow carried over. Only unmatched keypoints are followed by optical flow, at most the configured share of the keypoints detected in the next frame, and of the eligible ones (detected ones matched at least the configured number of times; flow-tracked ones for fewer than the configured number of frames) always the more deserving: detected before flow-tracked, longest detected first, shortest flow-tracked first. A keypoint that flow carries to a place inside the border region and that gets a descriptor is appended to the next frame, untracked, with the position from flow, the new descriptor and its old scale, orientation and score; all others leave the next frame as detected, and the earlier frame is not changed. Frames out of order, of another camera or lacking channels are refused.',
 ['histories','inputs'],'all sequences of frames, detections, flow outcomes, extraction outcomes and track identifiers',
 'Tests track one synthetic pair of frames.',
 [TR+'src/feature-tracker-gyro.cc',TR+'include/aslam/tracker/feature-tracker-gyro.h',TR+'src/tracking-helpers.cc','aslam_cv_matcher/src/match-helpers.cc'],[('candidate choice and status lengths',TR+'src/feature-tracker-gyro.cc')],[('status_track_length_km1_','age per keypoint of the frame before',TR+'include/aslam/tracker/feature-tracker-gyro.h')],['matches, the extended frame, what optical flow is asked'])
CAI=CA+'include/aslam/cameras/'
p('C23','Projection, back-projection, distortion and their derivatives agree',
 'For every camera model and distortion, projecting a point gives the keypoint that its calibration determines, whichever function is asked (for points and homogeneous points, one or many, with the own or with other parameters, with or without derivatives); the result says exactly whether the keypoint is visible, outside the image, behind the camera or invalid. Back-projecting gives the ray that projects to the keypoint, undistorting inverts distorting, and the derivatives with respect to point, intrinsics and distortion coefficients are those of the projection. Random keypoints and points are visible ones, and the rays of the border are those of the image corners.',
 ['inputs'],'all points, keypoints and calibrations',
 'Tests sample random points for a few calibrations and compare derivatives in general position only.',
 [CA+'src/camera.cc',CA+'src/camera-pinhole.cc',CA+'src/camera-unified-projection.cc',CA+'src/camera-3d-lidar.cc',CAI+'camera-3d-lidar-inl.h',CAI+'camera-pinhole-inl.h',CA+'src/distortion-radtan.cc',CA+'src/distortion-equidistant.cc',CA+'src/distortion-fisheye.cc',CAI+'distortion-fisheye-inl.h'],
 [('projection functions and derivatives',CA+'src/camera-pinhole.cc')],None,['keypoints, rays, statuses, derivatives'])
p('C24','Cameras as objects: settings, masks, line delays, copies and documents',
 'What is set on a camera is what it answers, and settings that do not fit (calibrations and distortion coefficients of the wrong number or range, masks of another size or type) are refused. A keypoint counts as masked exactly if it is outside the image or on a zero of the mask, and as visible (with margin) exactly if inside (the shrunken image). Its exposure delay is that of its line - row, or column of a lidar -, lines and maximal delay count the same lines. A copy is equal, independent and has its own mask; cameras are equal exactly if identifier, labels, kind, calibration, distortion, size, delay and compression are. Written to a document and read, a camera is the same but for its mask; incomplete or inconsistent documents are refused, and optional entries have their defaults.',
 ['histories','inputs'],'all sequences of changes, copies and documents, all keypoints',
 'Tests check a few masks and one camera per kind.',
 [CA+'src/camera.cc',CAI+'camera.h',CAI+'camera-inl.h',CA+'src/camera-factory.cc',CA+'src/distortion.cc',CAI+'camera-3d-lidar.h'],[('mask and line delay queries',CAI+'camera.h')],[('mask_','where nothing is to be seen',CAI+'camera.h')],['answers of the camera'])
CB='aslam_cv_calibration/'
p('C25','Calibration targets, their observations, and tag detection',
 'A target of rows and columns of square tags (two rows and two columns of points per tag) has its points at the places its tag size and spacing determine, numbered row by row; its sizes and grid coordinates agree with those points, and settings that make no target (no rows or columns, nonpositive sizes) are refused. A target document that has what it needs makes exactly the target described, and one without is refused. An observation answers for every point of the target whether it was seen and where, refuses points the target does not have, and gives seen image points and target points in the same order. In an image, an observation is made exactly if enough different, complete, well-placed tags of the target are detected; then it contains the four corners of exactly those tags, each under the number of its point and at its refined place, except corners the refinement moved too far, and no tag twice.',
 ['inputs','histories'],'all target shapes, sets of observed points, detections and refinements',
 'Tests build one target and detect it in a single image (and are not built here).',
 [CB+'src/target-base.cc',CB+'src/target-aprilgrid.cc',CB+'include/aslam/calibration/target-observation.h',CB+'include/aslam/calibration/target-base.h'],[('point lookups of observations',CB+'include/aslam/calibration/target-observation.h')],None,['observations'])
FR='aslam_cv_frames/'
p('C26','Feature tracks refer to the keypoints they were given',
 'A keypoint identifier refers to one keypoint of one frame of a multi-camera frame and answers that keypoint, its frame and its identifiers as they are now, and refuses what does not exist. A feature track is the sequence of the keypoint identifiers added to it: first, last, length and iteration agree with that sequence, removing the last removes exactly that one, copies are independent, and tracks compare by their length (tracks continued from another place by their identifier). The extent of a track is that of the smallest box of all its keypoints, wherever they are.',
 ['histories'],'all sequences of additions, removals, copies and changes of keypoints',
 'There are no tests of feature tracks.',
 [FR+'include/aslam/frames/feature-track.h',FR+'include/aslam/frames/feature-track-inl.h',FR+'include/aslam/frames/keypoint-identifier.h'],[('box of the keypoints',FR+'include/aslam/frames/feature-track.h')],[('keypoint_identifiers_','the keypoints in order',FR+'include/aslam/frames/feature-track.h')],['answers of tracks'])
PI='aslam_cv_pipeline/'
p('C27','The pipeline of one camera, and undistortion',
 'Processing an image makes a frame with a fresh identifier, the time given, the cameras of the pipeline and the given image (a copy exactly if configured so), and refuses images that do not fit the input camera; the processing is given the undistorted image exactly if there is an undistorter. An undistorter with a map shows at each pixel of the output what the input has at the mapped place (dark if outside) and refuses maps and images that do not fit its cameras. The maps made for a camera send each output pixel to where the input camera sees the same ray; the output camera has the asked size; with alpha 0 no output pixel is blank, with alpha 1 no input pixel is lost, in between intrinsics are interpolated; without distortion intrinsics are exactly scaled; parameters out of range are refused.',
 ['inputs','histories'],'all images, maps, cameras and parameters',
 'Tests check a few cameras and one image size (and are not built here).',
 [PI+'src/visual-pipeline.cc',PI+'src/undistorter.cc',PI+'src/undistorter-mapped.cc',PI+'include/aslam/pipeline/undistorter-mapped-inl.h','aslam_cv_common/include/aslam/common/undistort-helpers.h'],[('raw image copies',PI+'src/visual-pipeline.cc')],None,['frames, images, maps, output cameras'])
p('N02','Triangulation, pose estimation and outlier rejection are accurate',
 'Triangulated points, poses and inlier sets agree with the geometry that generated the observations within tolerance.',
 ['inputs'],'all geometries','Sampled geometries only.',
 ['aslam_cv_triangulation/src/triangulation.cc','aslam_cv_geometric_vision/src/pnp-pose-estimator.cc'],[('linear solvers','aslam_cv_triangulation/src/triangulation.cc')])
p('N03','Image feature and line detection find the image structures present',
 'Detectors report the keypoints, scale-space features and line segments present in an image, and drawing functions render them.',
 ['inputs'],'all images','Sampled images only.',
 ['aslam_cv_detector/src/lsd/lsd-opencv.cc','aslam_cv_detector/src/line-segment-detector.cc','aslam_cv_visualization/src/basic-visualization.cc'],[('region growing','aslam_cv_detector/src/lsd/lsd-opencv.cc')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
