"""Texts of the properties.  tools/gen.py turns them into properties.jsonl and MANIFEST.json."""

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, level_note, technique):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, observe=observe, level_note=level_note, technique=technique))


prop("C01", "A config block and its views are one consistent store",
     "After any sequence of setting, removing, merging and describing entries through a config block, its subblocks and its subblock views, every block and view reports exactly the keys, values, descriptions and source locations that a plain map from full key to entry would hold. A view reads and writes the entries of its parent under its prefix, a subblock is an independent copy, and a lookup of a missing key fails (or gives the default) without changing anything.",
     ["histories"], "all sequences of block, view, subblock and merge operations over nested prefixes, values and descriptions",
     "The tests look at a few fixed sequences on one or two blocks; the property is about every history of operations through any number of views sharing entries.",
     ["vital/config/config_block.cxx", "vital/config/config_block.h"],
     [("entry maps shared between views and their parent", "config_block: i_set_value, i_get_value, i_unset_value, subblock_view, merge_config")],
     ["get_value / has_value / available_values / get_description / get_location of every block and view after every operation"],
     "Model-based random histories against a plain map; every read interface of every live block is compared after each step. Explores, does not prove.",
     "stateful property-based testing against a reference map")
prop("C02", "Read-only config entries can not be changed",
     "Once a config entry is marked read-only, no operation through any block or view that reaches it - assignment, removal, or merging in a block that holds the key - changes its value: each such attempt is reported as an error, and everything else still works. The mark is reported the same through the block and all of its views.",
     ["histories"], "all sequences of marks, writes, removals and merges through blocks and views",
     "The tests mark one key of one block; the property quantifies over where the mark was set, through which view the write comes and which keys a merged block holds.",
     ["vital/config/config_block.cxx", "vital/config/config_block_exception.cxx"],
     [("set of read-only keys consulted before every change", "config_block: mark_read_only, is_read_only, i_set_value, i_unset_value, merge_config")],
     ["exception type of each refused operation, value and mark seen from every view"],
     "Model-based random histories as for C01 with read-only marks; every refused and every allowed operation is checked.",
     "stateful property-based testing against a reference map")
prop("C03", "Typed config values survive the trip through text",
     "A value of any supported type stored in a config block is read back as the same value with the same type, for every finite number, every boolean, every string and every time stamp. Text that is not a representation of the requested type, or is out of its range, is reported as a bad conversion instead of yielding some value; every documented spelling of a boolean is understood in any letter case.",
     ["inputs"], "all values of the supported types and all texts read as these types",
     "The tests convert a handful of literals; range limits, precision and rejection concern every value and every text.",
     ["vital/config/config_block.h", "vital/config/config_block_types.h", "vital/config/config_block.cxx"],
     [("text conversion of values in both directions", "config_block_set_value_cast / config_block_get_value_cast and their specialisations")],
     ["get_value<T>, get_value<T>(key, default), set_value<T>"],
     "Round trips and differential parsing against strtol/strtod-style references over random values and random texts.",
     "property-based testing: round trip and differential oracle")
prop("C04", "Writing a config file and reading it back gives the same configuration",
     "Every configuration that can be expressed in the file format is written to a file which, read back, yields exactly the same keys and values, whatever descriptions the entries carry and whichever of them are read-only. When a file can not be written the caller is told, and no failure is silent.",
     ["inputs", "fault_sequences"], "all configurations with keys and values the format can express, with any descriptions; failing destinations",
     "The tests write one configuration; escaping, wrapping of descriptions and key shapes matter for every configuration.",
     ["vital/config/config_block_io.cxx", "vital/config/config_parser.cxx"],
     [("writer and reader of the file format", "write_config_file, write_cb_entry / write_config, read_config_file")],
     ["file content, configuration read back, exceptions"],
     "Random configurations through write and read; failing destinations (directories, missing places, full device) must raise the documented errors.",
     "property-based testing: round trip")
prop("C05", "Config files mean what the documented format says",
     "Reading any valid set of config files - with nested blocks, includes found along the documented places, relative paths, local symbols, macros and read-only marks - yields exactly the keys, values, marks and source locations the documented format prescribes, and nothing else. Comments, blank lines, indentation and line ends carry no meaning, and a second assignment to a read-only entry is refused.",
     ["programs", "configurations"], "all valid config documents spread over any files, search paths and environments",
     "The tests read a fixed set of small files; interactions of blocks, includes, macros and paths are unbounded.",
     ["vital/config/config_parser.cxx", "vital/config/config_block_io.cxx", "vital/config/token_expander.cxx", "vital/config/token_type_symtab.cxx", "vital/config/token_type_env.cxx", "vital/config/token_type_sysenv.cxx", "vital/config/token_type_config.cxx"],
     [("recursive descent over statements with block and include stacks", "config_parser: process_file, parse_config, resolve_file_name, get_token"), ("macro substitution", "token_expander::expand_token")],
     ["config block returned by read_config_file: keys, values, read-only marks, locations"],
     "A generator writes random documents and interprets them with an independent reference written from the documentation.",
     "property-based testing: grammar-based generation against a reference interpreter")
prop("C06", "Malformed config files are rejected cleanly",
     "A set of config files with a malformed statement, an unbalanced block, an unknown flag, a missing include or an include cycle is always reported as an error naming the problem kind, never accepted and never followed forever. Reading any bytes as a config file either fails with a documented error or yields a usable configuration; a failed read leaves no state that affects later reads.",
     ["inputs"], "all valid documents with a malformed statement put anywhere, and all byte strings",
     "The tests hold a few broken files; the space of broken inputs is unbounded and crashes hide in it.",
     ["vital/config/config_parser.cxx", "vital/config/config_block_io.cxx"],
     [("error detection of the parser", "config_parser: parse_config, get_token, parse_config_file end-of-file checks")],
     ["exception type of read_config_file, sanitizer reports"],
     "Fault injection into generated documents, token soup, mutated documents and random bytes under address and undefined-behaviour sanitizers.",
     "property-based testing with fault injection, and fuzzing under sanitizers")
prop("C08", "Images, views and shared image memory never show wrong pixels",
     "Whatever sequence of creating, copying, viewing, cropping, flipping, resizing, deep-copying and transforming images is performed, every image shows at each pixel exactly what was last written there through any image sharing that memory, and images that do not share memory never influence each other. Any access outside of the image is refused with an out-of-range error, and the content comparison is true exactly for images of equal size and equal pixels.",
     ["histories"], "all operation histories over images of any size, depth, memory order, strides (also negative) and sharing",
     "The tests use a few fixed sizes with forward strides; the property is about all views, strides and histories, and about memory safety.",
     ["vital/types/image.cxx", "vital/types/image.h", "vital/types/image_container.h"],
     [("strided views over reference counted memory", "image: constructors, operator(), at, copy_from, set_size; image_memory; transform_image; equal_content")],
     ["pixel access, sizes, steps, sharing of memory, exceptions, sanitizer reports"],
     "Random histories of images against a byte-buffer model with independent address arithmetic; every pixel of every live image is compared after each operation.",
     "stateful property-based testing against a reference model")
prop("C09", "Tracks and track sets answer every query from their states",
     "For any history of appending states and tracks, a track holds exactly its accepted states in increasing frame order - a state or track that does not lie after the last frame is refused without any change - and finds the state of a frame if and only if it has one. Every query of a track set (frames, active, new and terminated tracks, matches between frames, percentage tracked, features and descriptors of a frame) returns what follows from the states of its tracks by definition, also for negative frame offsets counted from the end.",
     ["histories", "inputs"], "all collections of tracks with gaps, missing features and any query frames",
     "The tests query one small hand-made set of tracks; gaps, empty tracks, first and last frames and offsets interact in many ways.",
     ["vital/types/track.cxx", "vital/types/track.h", "vital/types/track_set.cxx", "vital/types/track_set.h"],
     [("ordered history of a track", "track: append, find, all_frame_ids"), ("queries computed from all tracks", "track_set: offset_to_frame, active_tracks, inactive_tracks, new_tracks, terminated_tracks, percentage_tracked, frame_features, frame_descriptors")],
     ["results of all queries of track and track_set"],
     "Random tracks and track sets; each query is compared with its definition evaluated over the model.",
     "property-based testing against a reference model")
prop("C10", "Time stamps compare and convert consistently",
     "A time stamp reports exactly the time, frame and domain that were set and which of them are valid. Comparison uses the times when both have one and the frames otherwise, is false in all directions when two time stamps can not be compared (different domains or nothing in common), and seconds agree with microseconds to within one microsecond.",
     ["histories", "inputs"], "all times, frames and domains, set and invalidated in any order",
     "The tests check a few time stamps; order laws and conversions concern all combinations of valid and invalid parts and the full range of values.",
     ["vital/types/timestamp.cxx", "vital/types/timestamp.h"],
     [("comparison by the parts that are valid", "timestamp: operator==, !=, <, >; set_time_usec, set_time_seconds, set_frame, set_invalid, pretty_print")],
     ["comparison operators, getters, printed form"],
     "Random histories of several time stamps and all their pairs against a model.",
     "stateful property-based testing against a reference model")
prop("C11", "Rotations agree in every representation",
     "A rotation made from a quaternion, a matrix, an axis and an angle, a rotation vector or from yaw, pitch and roll is the mathematical rotation so described, in both precisions, and converting it to any representation and back gives the same rotation - also for zero, tiny and half-turn angles. Composition, inversion, rotating vectors, angles and interpolation agree with the matrix algebra of the rotations.",
     ["inputs"], "all rotations including the degenerate angles, in float and double",
     "The tests convert a few rotations; degenerate angles and composition of arbitrary rotations are where conversions go wrong.",
     ["vital/types/rotation.cxx", "vital/types/rotation.h"],
     [("conversions through quaternions", "rotation_<T>: constructors, angle, axis, rodrigues, get_yaw_pitch_roll, operator*, interpolate_rotation, interpolated_rotations")],
     ["all accessors of rotation_<float> and rotation_<double>"],
     "Random rotations, with degenerate angles drawn on purpose, against matrices computed from the Rodrigues formula.",
     "property-based testing against a reference model, algebraic laws")
prop("C12", "Similarity transforms form a group acting on points",
     "A similarity transform maps a point to scale times rotated point plus translation, agrees with its matrix, and composition and inversion of transforms are composition and inversion of these maps, in both precisions. Transforms made from matrices, copied, cloned or converted to the other precision are the same map, a matrix that is no similarity gives the identity, and a transform written to a stream and read back maps points alike.",
     ["inputs"], "all scales, rotations, translations and points",
     "The tests transform a few points; group laws hold or fail for arbitrary transforms.",
     ["vital/types/similarity.cxx", "vital/types/similarity.h"],
     [("scale, rotation and translation kept apart", "similarity_<T>: operator*, inverse, matrix; constructors from matrices")],
     ["mapped points, matrices, composed and inverted transforms"],
     "Random transforms against 4x4 matrix algebra.",
     "property-based testing: reference model and algebraic laws")
prop("C13", "Cameras project and calibrations map as the camera model says",
     "For any pose, calibration and distortion coefficients a camera projects each point to where the camera model puts it, reports its depth, and agrees with its projection matrix; center, translation and rotation stay consistent whatever is set. Undistorting and unmapping an image point gives back the point it came from for moderate distortion, looking at a point puts it on the optical axis with the up direction up, and a camera written to a stream and read back is the same.",
     ["inputs"], "all poses, calibrations, supported sets of distortion coefficients and points",
     "The tests look at a few poses with little distortion; the model has to hold for each combination of skew, aspect ratio, coefficients and point.",
     ["vital/types/camera.cxx", "vital/types/camera.h", "vital/types/camera_intrinsics.cxx", "vital/types/camera_intrinsics.h"],
     [("camera model with radial, rational and tangential distortion", "camera_intrinsics: map, unmap, distort, undistort; camera: project, depth, as_matrix; simple_camera: look_at, set_translation; stream operators")],
     ["projected points, undistorted points, matrices, cameras read from streams"],
     "Random cameras and points against formulas written from the model; Newton iterations are only asked for moderate distortion.",
     "property-based testing: reference model and round trips")
prop("C14", "Homographies, essential and fundamental matrices obey projective algebra",
     "In both precisions homographies map points, compose, invert and normalise like their matrices, report points mapping to infinity and singular matrices, and refuse composition of transforms between frames that do not meet. An essential matrix is the one of its rotation and translation, decomposing any essential matrix gives one of its exact solutions with the twisted rotation as the other, and a fundamental matrix is the nearest matrix of rank two with unit norm.",
     ["inputs"], "all well conditioned matrices, frames and points",
     "The tests use single matrices; sign, scale and handedness ambiguities appear only for some of the inputs.",
     ["vital/types/homography.cxx", "vital/types/homography_f2f.cxx", "vital/types/homography_f2w.cxx", "vital/types/essential_matrix.cxx", "vital/types/fundamental_matrix.cxx"],
     [("matrix based transforms", "homography_<T>: map, inverse, normalize, operator*; f2f_homography::operator*; essential_matrix_<T> decomposition; fundamental_matrix_<T> rank reduction")],
     ["mapped points, matrices, decompositions, exceptions"],
     "Random matrices against independent linear algebra, tolerances set by the precision.",
     "property-based testing: reference model and algebraic laws")
prop("C07", "Config files are found and merged along the documented search path",
     "A config file asked for by name is looked for in the documented places in the documented order - environment list, user directories, install prefix, current directory last, each with the directory of the version first - and nowhere else. With merging, all files found are combined and for each key the first place that has it wins; without merging only the first file counts, an absolute name means just that file, and it is an error if there is none.",
     ["configurations", "inputs"], "all combinations of environment variables, application names, versions, prefixes and files, directories and faulty files in the places",
     "The tests read through the search path with one or two fixed layouts; precedence concerns every subset of places having a file.",
     ["vital/config/config_block_io.cxx", "vital/config/config_block_io.h", "vital/config/config_parser.cxx"],
     [("list of places and merging under the earlier ones", "config_file_paths, application_paths, read_config_file(name, application, version, prefix, merge)")],
     ["merged config block, exceptions"],
     "Random layouts in a scratch directory with decoys in places that must not be searched, against a reference search. System-wide places are only exercised while absent.",
     "property-based testing against a reference model")
prop("C15", "Copies, conversions and streams of measurements keep their values",
     "Covariances, features, landmarks, descriptors, colours, geographic positions, matches and their collections hold exactly the values given; a copy, clone, assignment or conversion to the other precision carries all of them - covariances included - and is independent of its original. What is written to a stream is read back the same, text that ends early gives the documented defaults or an error but never undetermined values, and validity and equality are decided by the values alone.",
     ["inputs", "histories"], "all values of the types in both precisions, all orders of setting them, all truncations of their text",
     "The tests construct a few objects; lost fields, aliasing between copies and undetermined values show only for particular types and conversions.",
     ["vital/types/covariance.h", "vital/types/feature.cxx", "vital/types/feature.h", "vital/types/landmark.cxx", "vital/types/landmark.h", "vital/types/descriptor.h", "vital/types/color.h", "vital/types/geo_lat_lon.cxx", "vital/io/eigen_io.h"],
     [("packed symmetric storage", "covariance_<N,T>"), ("abstract interfaces with typed implementations", "feature_<T>, landmark_<T>, descriptor_array_of<T>, stream operators")],
     ["all accessors through the abstract and the typed interface, stream text"],
     "Random values through every way of making, changing, copying and streaming them against plain structures; memory is pre-filled with a pattern so undetermined values show.",
     "property-based testing: reference model and round trips")
prop("C16", "Camera files keep cameras",
     "A camera written to a file and read back has the same pose, calibration and distortion to the digits written, whatever was in the file before and whichever directories had to be made, and white space between the numbers is free. The cameras of a list of images are exactly those whose file exists under the image's name, and missing files, missing directories and destinations that can not be written are always reported.",
     ["inputs", "fault_sequences"], "all cameras, file and image names, present and missing files, failing destinations",
     "The tests write and read one camera and one directory; digits, coefficients, names and failures concern all of them.",
     ["vital/io/camera_io.cxx", "vital/io/camera_map_io.cxx", "vital/io/eigen_io.h", "vital/types/camera.cxx", "vital/types/camera_intrinsics.cxx"],
     [("text form of cameras", "write_krtd_file, read_krtd_file, stream operators of camera"), ("names of camera files", "read_krtd_file(image, dir), read_krtd_files")],
     ["cameras read back, files, exceptions"],
     "Random cameras through files in a scratch directory; file layout varied; failing destinations include a full device.",
     "property-based testing: round trip with fault injection")
prop("C17", "Landmark and track files keep landmarks and tracks",
     "Landmarks and tracks written to a file are read back with the same ids, positions, normals, colours, counts, frames and features to the digits written, and files by other writers - properties in any order, unknown ones, comments, other elements, mixed lines - mean what the format says. Nothing to write, missing files and destinations that can not be written are always reported.",
     ["inputs", "fault_sequences"], "all landmark maps and track sets, all layouts the formats allow, failing destinations",
     "The tests read two small files; precision, ids and layouts concern all files.",
     ["vital/io/landmark_map_io.cxx", "vital/io/track_set_io.cxx"],
     [("property table of the header and values by position", "read_ply_file, write_ply_file"), ("one state per line", "read_track_file, write_track_file")],
     ["landmarks and tracks read back, exceptions"],
     "Random maps and track sets through files, and files generated in other dialects, against models.",
     "property-based testing: round trip and grammar-based generation")
prop("C18", "Damaged camera, landmark and track files never do harm",
     "Reading any bytes as a camera, landmark or track file ends with a documented error or gives a usable result, the same each time it is read, with tracks in frame order and no more landmarks than declared. A camera file lacking one of its numbers and a track line lacking its ids or location are always refused.",
     ["inputs", "fault_sequences"], "all byte strings, and all single damages to valid files",
     "The tests read two malformed camera files; damage can be anywhere.",
     ["vital/io/camera_io.cxx", "vital/io/landmark_map_io.cxx", "vital/io/track_set_io.cxx", "vital/io/eigen_io.h", "vital/types/camera.cxx"],
     [("error detection of the readers", "operator>> of Eigen matrices, simple_camera and feature_; read_ply_file header parsing")],
     ["exceptions, results, sanitizer reports"],
     "Truncated, mutated and random files under address and undefined-behaviour sanitizers.",
     "property-based testing with fault injection, and fuzzing under sanitizers")
prop("C19", "Algorithms are created by name and configured through nested blocks",
     "After any history of registrations, algorithms are listed, found and created under exactly the names registered for their type; creating or cloning gives an independent instance of the latest registration, and an unknown name gives none. The configuration of an algorithm with nested algorithms holds type and parameters of each nested one, setting it creates and configures exactly the implementations it names and leaves the others as they are, and it is accepted by the check if and only if every nested type it needs is named, registered and accepts its own block.",
     ["histories", "configurations"], "all histories of registering, creating, cloning and configuring algorithms with nested algorithms",
     "The tests register a few algorithms and read one nested configuration; replacement, name prefixes, several levels of nesting and edited configurations are unbounded.",
     ["vital/algo/algorithm.cxx", "vital/algo/algorithm.h", "vital/algo/algorithm.txx", "vital/registrar.h", "vital/registrar.cxx"],
     [("maps of registered instances per type", "registrar: register_item, find, registered_names"), ("configuration of nested algorithms", "algorithm: get_nested_algo_configuration, set_nested_algo_configuration, check_nested_algo_configuration")],
     ["registered_names, has_type_name, has_impl_name, create, clone, get_configuration, set_configuration, check_configuration, get_impl_configurations"],
     "Model-based random histories in a process per case; the whole registry and every live algorithm is compared after each step.",
     "stateful property-based testing against a reference model")
prop("C20", "Plugins are loaded from the search path, once when asked, and stay usable",
     "Loading plugins loads exactly the modules with the platform's suffix in the existing directories of the search path - environment first, added directories last - or only those of the given name, ignores everything that is not a plugin, and registers what each module registers, later directories and later loads replacing earlier ones. Of any number of concurrent calls to load once exactly one loads, and each returns after everything is loaded; whatever is registered can be created and used afterwards, also when a module failed half way.",
     ["configurations", "histories", "schedules"], "all directory contents, environments, histories of loading and threads loading at the same time",
     "No test loads a plugin at all; directory contents, module names and histories are unbounded and threads race.",
     ["vital/algorithm_plugin_manager.cxx", "vital/algorithm_plugin_manager.h", "vital/registrar.h", "vital/kwiversys/DynamicLoader.cxx"],
     [("scan of the search path and registration of modules", "algorithm_plugin_manager::impl: load_from_search_paths, load_modules_in_directory, register_from_module"), ("one-time loading", "algorithm_plugin_manager::load_plugins_once")],
     ["registered_module_names, get_search_path, registered algorithms and their values"],
     "Random directories of real, failing and fake modules in scratch directories, a process per case; threads with random delays.",
     "stateful property-based testing against a reference model with generated schedules")
prop("C21", "Algorithm base classes hand implementations exactly the data given",
     "The convenience forms of estimators, filters, camera optimisation and similarity estimation call the implementation exactly with the points, calibrations, cameras and landmarks that belong together - by match, by shared id, by frame and track - and return its result, leaving the inputs unchanged. Loading and saving images reports missing files, directories and missing or false destination directories before the implementation is asked, and the zone of a longitude is the standard one for every number of turns.",
     ["inputs"], "all feature sets, matches, id maps, tracks, paths and longitudes",
     "The tests exercise one estimator base with one set of cameras and landmarks; pairing errors show for particular id patterns.",
     ["vital/algo/estimate_homography.cxx", "vital/algo/estimate_fundamental_matrix.cxx", "vital/algo/estimate_essential_matrix.cxx", "vital/algo/estimate_similarity_transform.cxx", "vital/algo/filter_features.cxx", "vital/algo/optimize_cameras.cxx", "vital/algo/image_io.cxx", "vital/algo/geo_map.cxx"],
     [("pairing of data for the implementation", "estimate, estimate_transform, filter, optimize, load, save, latlon_zone")],
     ["arguments received by a recording implementation, results and exceptions"],
     "Random inputs through recording implementations, compared with the pairing computed independently.",
     "property-based testing with recording implementations as oracle")
prop("C22", "Log messages come out once, whole, in order, at the levels enabled",
     "A logger asked for by name is the same object for every caller and thread, and has the level it was given; a message is written by any way of logging if and only if its level is enabled, each of its lines with a time within the call, the level and the place it came from, and never mixed with messages of other threads. Loggers come from the factory named by the environment or set by the application, else from the built-in one, a factory that can not be loaded being reported and replaced by the built-in one; a location is split into file, directory, class and function.",
     ["inputs", "histories", "schedules"], "all names, levels, texts, locations, factories and threads logging at the same time",
     "The test only writes a few lines to be looked at; levels, times, texts with several lines and threads are unbounded.",
     ["vital/logger/default_logger.cxx", "vital/logger/default_logger.h", "vital/logger/kwiver_logger.cxx", "vital/logger/kwiver_logger_manager.cxx", "vital/logger/kwiver_logger_factory.cxx", "vital/logger/location_info.cxx", "vital/logger/logger.h"],
     [("level of a logger and output stream", "default_logger: set_level, is_X_enabled, log_X, log_message"), ("one logger per name", "logger_factory_default::get_logger, kwiver_logger_manager"), ("factory from the environment", "logger_manager: initialize, set_logger_factory"), ("split of a location", "location_info")],
     ["the text written, logger objects, levels, factory names"],
     "Random histories and texts, with threads, against a model of the enabled levels; the text written is parsed back; factories are real plugin files.",
     "property-based testing against a reference model with generated schedules")
prop("C23", "The C interface does what the C++ interface does",
     "Every C function on config blocks, config files, images, image containers, tracks, track sets, cameras, camera maps and algorithms gives the values the C++ function gives, and reports each failure as the documented error code with the reason as message - or stays silent without error handle - never by an exception or a crash. An object lives until its handle was destroyed as often as it was handed out, independent of the objects it was made from, and using or destroying a handle after that is an error.",
     ["inputs", "histories"], "all histories of C calls with and without error handle, valid and invalid handles, all files",
     "No test calls the C interface at all; life times, messages and errors depend on the history.",
     ["vital/bindings/c/helpers/c_utils.h", "vital/bindings/c/helpers/c_utils.cxx", "vital/bindings/c/helpers/algorithm.h", "vital/bindings/c/config_block.cxx", "vital/bindings/c/image.cxx", "vital/bindings/c/image_container.cxx", "vital/bindings/c/track.cxx", "vital/bindings/c/track_set.cxx", "vital/bindings/c/camera.cxx", "vital/bindings/c/camera_map.cxx", "vital/bindings/c/algorithm.cxx", "vital/bindings/c/common.cxx", "vital/bindings/c/error_handle.cxx"],
     [("cache of shared pointers with reference counts", "SharedPointerCache: store, get, erase"), ("translation of exceptions", "STANDARD_CATCH, POPULATE_EH, read_config_file_helper")],
     ["returned values, error codes and messages, life time of the C++ objects, sanitizer reports"],
     "Random histories of C calls, each compared with the C++ call on a twin; weak pointers watch life times; run under address sanitizer.",
     "property-based testing: differential, under sanitizers")
prop("C24", "Utilities enumerate, split, time and locate what is there",
     "Enumerating a sparse matrix visits every stored cell once, in storage order, with its row, column and value, whatever rows and columns are empty; splitting a text at delimiters gives all its fields, without the empty ones when asked, and joined again the text. Timers report the time that passed between start and stop and nothing while disabled, the paths of the executable and of a module are where their files are, whatever their directories are named, and plugin_explorer lists exactly the modules and implementations that loading gives.",
     ["inputs", "configurations"], "all sparse matrices, texts, delimiters, histories of a timer, directory names and sets of modules",
     "The tests enumerate one matrix, split one text and the timer test was skipped; empty rows, names with spaces and empty fields are unbounded.",
     ["vital/util/enumerate_matrix.h", "vital/util/tokenize.h", "vital/util/wall_timer.h.in", "vital/util/cpu_timer.h.in", "vital/util/timer.h", "vital/util/get_paths.cxx", "vital/util/whereami.c", "vital/tools/plugin_explorer.cxx"],
     [("position in a sparse matrix", "sparse_matrix_enumerator::iterator"), ("fields of a text", "tokenize"), ("start and elapsed time", "wall_timer, cpu_timer, scoped_timer"), ("maps of the process", "get_executable_path, get_module_path")],
     ["cells, fields, elapsed times, paths, the text plugin_explorer prints"],
     "Random matrices, texts and timer histories against models; an executable and modules copied to randomly named directories report their paths; plugin_explorer's output is parsed and compared with the modules given.",
     "property-based testing against reference models")
prop("C25", "Paths are split, joined, collapsed and related as their components say",
     "Splitting a path gives its root and components, joining these gives an equivalent path, and a collapsed path is absolute, without '.', '..', empty components or a trailing slash, naming what the components walked from the base name; equal paths collapse to equal text. The relative path between two paths leads from one to the other, a path is inside of another exactly if its components start with the other's, directory, name, extension and name without extension make up the path, and slashes, home directories, spaces and lists of directories are converted without changing what is named, kept names being preferred where registered.",
     ["inputs"], "all paths: roots, drives, home directories, empty, dotted and repeated components, spaces and backslashes, and all bases",
     "The tests of kwsys are not part of the suite; the components of a path are unbounded and each special name changes the result at any position.",
     ["vital/kwiversys/SystemTools.cxx", "vital/kwiversys/SystemTools.hxx.in", "vital/config/config_block_io.cxx"],
     [("components of paths", "SystemTools: SplitPath, JoinPath, SplitPathRootComponent"), ("absolute and relative paths", "SystemTools: CollapseFullPath, RelativePath, IsSubDirectory, FileIsFullPath"), ("kept names", "SystemTools: AddKeepPath, AddTranslationPath, CheckTranslationPath"), ("conversion", "SystemTools: ConvertToUnixSlashes, ConvertToOutputPath, GetPath")],
     ["results of SystemTools functions on paths"],
     "Random paths built of roots and components, each function against a model working on the components.",
     "property-based testing against a reference model")
prop("C26", "File operations do what was asked, to these files and no others",
     "Making, copying, touching and removing files and directories, links and permissions have exactly the effect of the system calls they stand for, succeed exactly when these do, leave every other file, the source of a copy and the umask as they were, and report a copy that could not be read or written completely. What is asked about a file - existence, kind, access, length, times, permissions, links, real path, entries, equality, type - is what the system says, searches return the first match of the right kind in the order of the path, and lines and program names are split without losing characters.",
     ["inputs", "histories", "faults"], "all trees of files, directories and links with their permissions, histories of operations, and full or unwritable places",
     "The suite runs none of these; what an operation does depends on links, permissions, existing destinations and errors of the system that tests do not produce.",
     ["vital/kwiversys/SystemTools.cxx", "vital/kwiversys/SystemTools.hxx.in", "vital/kwiversys/Directory.cxx"],
     [("operations on files", "SystemTools: MakeDirectory, CopyAFile, CopyADirectory, RemoveFile, RemoveADirectory, Touch, SetPermissions, CreateSymlink"), ("inspection", "SystemTools: FileExists, FileIsDirectory, FilesDiffer, SameFile, FileTimeCompare, GetRealPath; Directory::Load"), ("searches", "SystemTools: FindFile, FindDirectory, FindProgram, FindLibrary, LocateFileInDir, SplitProgramFromArgs")],
     ["states of two scratch trees, results of the functions"],
     "Two equal random trees; an operation in one, the system calls in the other, both as an unprivileged user and some with a limit on file sizes; the whole trees are compared after each step.",
     "stateful property-based testing: differential, with fault injection")
prop("C27", "Regular expressions find the matches of their documented language",
     "A regular expression accepts exactly the documented syntax, and finds the leftmost match a backtracking reading of it finds: earlier alternatives first, repetitions as long as possible; start, end and text of the whole match and of each group are those of that reading, and searching reads nothing outside of its text. A refused expression is reported and leaves an object that refuses to search, and copies find what the original finds and compare equal exactly as their expressions and matches do.",
     ["inputs"], "all expressions within nine groups and all texts",
     "No test uses the expressions; what is found depends on how alternatives, repetitions and groups nest and on the text.",
     ["vital/kwiversys/RegularExpression.cxx", "vital/kwiversys/RegularExpression.hxx.in"],
     [("compilation", "RegularExpression::compile"), ("search", "RegularExpression::find"), ("copies", "RegularExpression copy constructor, operator==, deep_equal")],
     ["is_valid, results and positions of find"],
     "Random syntax trees written out as expressions, random texts related to them, a backtracking matcher on the tree; malformed expressions must be refused.",
     "property-based testing against a reference model")
prop("C28", "Command lines are parsed as the registered arguments say",
     "Each registered argument - without value, with value after a space, after '=', concatenated, or with several values - sets its variable or calls its callback with its values in order and in no other place; all other arguments stay the remaining ones, reach the unknown-argument callback, or make parsing fail as documented. A missing value fails, the last parsed argument is reported, and the help lists all arguments with their aliases and texts, every word once and within the line length.",
     ["inputs"], "all sets of registered arguments, kinds of variables and callbacks, and command lines",
     "No test uses the parser; meaning depends on the set of names that are prefixes of each other, on kinds of values and on their order.",
     ["vital/kwiversys/CommandLineArguments.cxx", "vital/kwiversys/CommandLineArguments.hxx.in"],
     [("parsing", "CommandLineArguments::Parse, GetMatchedArguments, PopulateVariable"), ("remaining arguments", "CommandLineArguments::GetRemainingArguments, GetUnusedArguments, SetUnknownArgumentCallback"), ("help", "CommandLineArguments::GenerateHelp, SetLineLength")],
     ["variables, callbacks, remaining arguments, help text"],
     "Random sets of arguments with overlapping names and random command lines against an interpreter of the registrations; help texts against the registered words.",
     "property-based testing against a reference model")
prop("C29", "Text helpers give exactly the text, position or number they name",
     "Changing case, removing, replacing and escaping characters, replacing, finding, appending, cropping and splitting text have exactly the described result for every text and leave everything else of it alone; comparison without case is an order. Compilation dates and time stamps convert to the local time they name or are refused, dates are formatted as asked, the parts of a URL are those it was made of and other texts are refused unchanged, and the estimated length of formatted text is never below the length printed.",
     ["inputs"], "all texts, including empty ones and ones of any bytes, formats with all kinds of arguments, dates and URLs",
     "None of these is tested; the texts are unbounded and the errors are in empty, overlapping, repeated or long ones.",
     ["vital/kwiversys/SystemTools.cxx", "vital/kwiversys/SystemTools.hxx.in"],
     [("strings", "SystemTools: string manipulation routines"), ("dates", "SystemTools: ConvertDateMacroString, ConvertTimeStampMacroString, GetCurrentDateTime"), ("URLs", "SystemTools: ParseURL, ParseURLProtocol")],
     ["results of SystemTools functions on texts"],
     "Random texts and pieces of them against direct models, format strings against the C library; texts in buffers of exact size under AddressSanitizer.",
     "property-based testing against a reference model")
prop("C30", "The Python interface does what the library does",
     "Every call of the Python classes - configurations, images and their containers, tracks, cameras, maps, algorithms, the plugin manager and the feature tracking tool - does what the C++ call it stands for does, with the same values, texts and files, and a failure there raises the documented exception with its reason. An object lives exactly as long as some Python object refers to it, whatever it was copied, derived or obtained from, nothing is read after it was released, and the library is found along the documented search.",
     ["inputs", "histories"], "all histories of calls and deletions of Python objects, all configurations of the tool and arrangements of library directories",
     "The Python tests need Python 2 and are not run; life times, exceptions and argument conversion depend on the history of calls.",
     ["vital/bindings/python/vital/config_block.py", "vital/bindings/python/vital/image.py", "vital/bindings/python/vital/image_container.py", "vital/bindings/python/vital/track_set.py", "vital/bindings/python/vital/camera_map.py", "vital/bindings/python/vital/algo/algorithm.py", "vital/bindings/python/vital/algo/image_io.py", "vital/bindings/python/vital/algo/convert_image.py", "vital/bindings/python/vital/algo/track_features.py", "vital/bindings/python/vital/apm.py", "vital/bindings/python/vital/util/VitalObject.py", "vital/bindings/python/vital/util/error_handle.py", "vital/bindings/python/vital/util/find_vital_library.py.in", "vital/bindings/python/vital/bin/maptk_track_features.py", "vital/bindings/c/config_block.cxx"],
     [("ownership of C objects", "VitalObject: from_c_pointer, __del__, _destroy"), ("exceptions", "VitalErrorHandle: set_exception_map, propagate_exception"), ("calls of the C interface", "argtypes and restype of each method"), ("feature tracking", "TrackFeaturesTool, cli_main")],
     ["results and exceptions of Python calls, files written, life time of the C++ objects, sanitizer reports"],
     "The Python 2 modules run in an interpreter inside of the harness, with the differences of the dialects translated; random histories of calls, each compared with the C++ call, under address sanitizer.",
     "property-based testing: differential, under sanitizers")

prop("C31", "Child processes are started, read and ended as asked",
     "A pipeline of processes runs the given programs with exactly the given arguments, directory and redirections, every byte written to an output pipe is delivered once and in order, and the state, exit value or signal reported is that of the last process; what can not be started is reported with its reason, timeouts and Kill end the processes and all of their children. The calling program keeps its working directory, signal handlers, signal mask and descriptors, no child is left unreaped, only descendants are ever signalled, and objects used again or side by side do not influence each other. A command line text is split into the arguments that were quoted into it.",
     ["inputs", "histories", "schedules", "injected faults"], "all pipelines, redirections, ends of processes, call sequences on one or more objects, failing system calls and signals arriving at any time",
     "No test of the suite runs a process; leaks, races, reused objects and failing system calls need histories and faults.",
     ["vital/kwiversys/ProcessUNIX.c", "vital/kwiversys/Process.h.in", "vital/kwiversys/System.c", "vital/kwiversys/System.h.in"],
     [("start of a pipeline", "kwsysProcess_Execute, kwsysProcessCreate"), ("reading", "kwsysProcess_WaitForData, kwsysProcessWaitForPipe"), ("outcome", "kwsysProcess_WaitForExit, kwsysProcessSetExitException"), ("ending", "kwsysProcess_Kill, kwsysProcessKill, kwsysProcess_Interrupt"), ("signals of the program", "kwsysProcessesAdd, kwsysProcessesRemove, kwsysProcessesSignalHandler"), ("command lines", "kwsysSystem_Parse_CommandForUnix")],
     ["data, states and exit values returned, files written by the children, processes and descriptors left, handlers, targets of kill()"],
     "Random histories of real processes whose output and end are known, with stand-ins for kill, fork, pipe and select that record or fail, under address sanitizer.",
     "property-based testing: model-based with fault injection, under sanitizers")

prop("C32", "System facts are reported as the kernel gives them",
     "The numbers of physical and logical processors, the processor's vendor, name, family, model, clock and cache, the amounts of memory, their limits and use, host and domain names, and the operating system's name, release and version are those described by the kernel's files and calls, whatever architecture, number of processors or kernel release these describe and in whatever order they are asked for; configuration files get the same values through $SYSENV{...}. Files that are missing, empty, cut or odd lead to a defined answer. A stack trace handler switched on ends the program with a trace for fatal signals, switched off restores what was installed before.",
     ["inputs", "histories", "injected faults"], "all CPU descriptions, memory tables, limits, names and network interfaces, read failures, query orders and handler histories",
     "The suite only prints what the present machine reports; other machines and failing reads need generated kernel answers.",
     ["vital/kwiversys/SystemInformation.cxx", "vital/kwiversys/SystemInformation.hxx.in", "vital/config/token_type_sysenv.cxx"],
     [("processors", "SystemInformationImplementation::RetreiveInformationFromCpuInfoFile"), ("memory", "QueryLinuxMemory, GetFieldsFromFile, GetHostMemoryTotal, GetProcMemoryAvailable"), ("names", "QueryOSInformation, GetFullyQualifiedDomainName"), ("configuration values", "token_type_sysenv::lookup_entry"), ("stack traces", "SetStackTraceOnError, GetProgramStack")],
     ["values returned, text of configuration entries, handlers installed, status of a process that raises a signal"],
     "Generated kernel files and call results presented by stand-ins for open, fopen, uname, getrlimit and others, compared with what was generated; under address and undefined-behaviour sanitizers.",
     "property-based testing: model-based over generated kernel answers, under sanitizers")

prop("C34", "Hash containers behave like the standard's containers",
     "After any sequence of insertions of single elements and of ranges of any kind of iterator, erasures by key, position and range, resizing, copies, assignments and swaps, the hash maps, multimaps, sets and multisets of kwiversys hold exactly the elements the standard's containers would hold, with equal elements next to each other, whatever hash function is used; comparisons call containers equal only if they have the same elements. Failing copies of elements and failing hash functions leave a consistent container and lose nothing that is allocated. An owning pointer has exactly one owner at any time and the object is destroyed exactly once.",
     ["histories", "injected faults"], "all sequences of operations, hash functions from perfect to constant, iterator kinds, and points at which a copy or the hash function throws",
     "The suite instantiates a map and a set once; collisions, growth, and exceptions need generated histories.",
     ["vital/kwiversys/hashtable.hxx.in", "vital/kwiversys/hash_map.hxx.in", "vital/kwiversys/hash_set.hxx.in", "vital/kwiversys/hash_fun.hxx.in", "vital/kwiversys/auto_ptr.hxx.in"],
     [("chains of nodes in buckets", "hashtable: insert_unique, insert_equal, erase, resize, _M_copy_from, operator=="), ("transfer of ownership", "auto_ptr, auto_ptr_ref")],
     ["elements seen by iteration, find, count, equal_range and the buckets; live elements and allocated bytes"],
     "Random histories compared with standard containers after every step, counting elements and bytes; under address and undefined-behaviour sanitizers.",
     "stateful property-based testing against standard containers, with injected exceptions")

prop("C33", "Encodings, digests and coloured text are exact",
     "Base64 text made from any bytes is the standard's, and decoding it gives the bytes back by length of the data, by length of the text or up to the marked end, never reading or writing more than it was given; text that is not Base64 is decoded up to where it stops being so. MD5 digests are those of the concatenated data, however it is cut into pieces; letter case is ignored only where letters differ in case; narrow and wide text convert into each other without loss, and what is no text converts to nothing; a byte order mark is recognised and skipped and the stream stays readable from there whether or not there is one. Coloured output shows exactly the given text in the given colours on terminals that understand it, plain text elsewhere, and leaves the terminal as it was.",
     ["inputs", "histories"], "all byte strings, cuts into pieces, texts in ASCII and UTF-8, stream contents and positions, colours, terminals and environments",
     "The suite does not build these parts; every length, cut and malformed text has to be right.",
     ["vital/kwiversys/Base64.c", "vital/kwiversys/MD5.c", "vital/kwiversys/String.c", "vital/kwiversys/EncodingC.c", "vital/kwiversys/EncodingCXX.cxx", "vital/kwiversys/FStream.cxx", "vital/kwiversys/Terminal.c"],
     [("Base64", "kwsysBase64_Encode, kwsysBase64_Decode, kwsysBase64_Decode3"), ("digests", "md5_append, md5_finish"), ("wide text", "Encoding::ToWide, ToNarrow, CommandLineArguments"), ("marks", "FStream::ReadBOM"), ("colours", "kwsysTerminal_cfprintf")],
     ["bytes and texts produced, stream state and position, what an emulated terminal shows"],
     "Round trips and differential comparison with independent implementations on buffers of exactly the allowed size; under address and undefined-behaviour sanitizers.",
     "property-based testing: round trips and differential oracles")
prop("C35", "Globbing finds exactly the files that match",
     "A pattern matches a name exactly if its text says so: a star any characters and a question mark one, neither a slash, brackets one of a set or of its complement, everything else itself. A search lists exactly the entries of the tree whose path matches component by component; with recursion everything below that matches the last component, through links to directories or not, each cycle of links cut and reported, with or without directories, relative to a directory if asked, whatever was searched before with the same object and whichever directories can not be read.",
     ["inputs", "histories"], "all patterns and names, trees with links and cycles and unreadable directories, settings and sequences of searches",
     "The suite does not build this part; patterns, links and settings interact in every combination.",
     ["vital/kwiversys/Glob.cxx", "vital/kwiversys/Glob.hxx.in", "vital/kwiversys/Directory.cxx", "vital/kwiversys/RegularExpression.cxx"],
     [("patterns", "Glob::PatternToRegex"), ("searches", "Glob::FindFiles, ProcessDirectory, RecurseDirectory")],
     ["names found, messages about cycles, number of links followed"],
     "Generated patterns against a matcher of their text; generated trees walked with system calls; under address and undefined-behaviour sanitizers.",
     "property-based testing: reference matcher and reference walk")

prop("C36", "A launcher starts its program with the right library path",
     "A program made from the shared-library launcher finds where it lies, whether it was started by a path or found through PATH, starts the program that belongs to that place (the one in the build tree if it lies there, otherwise the installed one, relative to itself) and gives it the configured library directories in order, relative ones taken from its own directory, followed by the search path it was given, with no empty entry added. Arguments, working directory, other variables and the exit status are passed through; the options for running another command, printing the settings and listing libraries do that and nothing else. Paths too long or missing are reported with status 1 and nothing is started, whatever the lengths.",
     ["inputs", "configurations"], "all directories and links, settings, PATH and library search paths, arguments, working directories and lengths",
     "The suite does not build this part; places, settings and environments combine freely, and lengths meet fixed buffers.",
     ["vital/kwiversys/SharedForward.h.in"],
     [("finding itself", "kwsys_shared_forward_self_path, kwsys_shared_forward_find_exe"), ("search path", "kwsys_shared_forward_get_settings"), ("options", "kwsys_shared_forward_execvp_, kwsys_shared_forward_print, kwsys_shared_forward_ldd"), ("lengths", "kwsys_shared_forward_fullpath, KWSYS_SHARED_FORWARD_MAXPATH")],
     ["what is started: file, arguments, environment, working directory; output and exit status"],
     "Generated trees and environments in a scratch directory; the started program reports what it got, compared with a model; under address and undefined-behaviour sanitizers.",
     "property-based testing: reference model of the started program")
prop("C37", "Errors say what failed, and where",
     "A configuration operation, a parsed configuration file, a data file or an image that cannot be used raises the error of its own kind, which is also caught as each of its documented bases, keeps its message and members when copied or caught late, and names the key, value, type, file or directory concerned whatever characters these contain. Every wrong line of a configuration file, in included files and after them, is reported with its file and line before the file as a whole is refused; a file without wrong lines raises nothing. No implementation is asked to load from or save to a place that does not exist.",
     ["inputs", "histories"], "all keys, values, names and reasons, sequences of operations on a configuration, files with errors anywhere in a tree of includes, kinds of obstacle in the way of a path",
     "Tests provoke one error of each kind and look at its type; users look at the text, the line and the file.",
     ["vital/config/config_block_exception.cxx", "vital/config/config_parser.cxx", "vital/config/config_block.cxx", "vital/exceptions/io.cxx", "vital/exceptions/image.cxx", "vital/exceptions/math.cxx", "vital/exceptions/algorithm.cxx", "vital/algo/image_io.cxx", "vital/io/camera_io.cxx"],
     [("values", "config_block::get_value, set_value, unset_value, mark_read_only"), ("lines", "config_parser::priv::process_file, get_token"), ("files", "read_krtd_file, read_ply_file, read_track_file and their writers"), ("images", "image_io::load, save"), ("classes", "vital/exceptions.h")],
     ["class, message and members of the exception; lines logged"],
     "Generated operations and files whose errors are known by construction; under address and undefined-behaviour sanitizers.",
     "property-based testing: model of expected errors")

prop("C38", "Threads that change nothing in common do not disturb each other",
     "Threads may parse and write configurations, read and write data files, compute with the value types, make and configure algorithms, log, use the path, file and text utilities and the C interface at the same time, each with objects of its own or with shared ones that no thread changes: there is no data race, and every thread gets exactly what it gets when it runs alone. This holds for the first use too, when loggers, the plugin manager and the remembered paths come into being: all threads get the same one, and plugins are loaded once. Every message is logged whole, with no other message between its lines.",
     ["schedules", "inputs", "histories"], "all programs of two to five threads made from these operations, and their schedules",
     "The suite runs in one thread; a race shows only on rare schedules, and often only as a wrong value.",
     ["vital/config/config_parser.cxx", "vital/config/token_expander.cxx", "vital/kwiversys/RegularExpression.cxx", "vital/kwiversys/SystemTools.cxx", "vital/logger/default_logger.cxx", "vital/logger/kwiver_logger_manager.cxx", "vital/algorithm_plugin_manager.cxx", "vital/util/get_paths.cxx", "vital/types/timestamp.cxx", "vital/bindings/c/helpers/c_utils.h"],
     [("parsing", "config_parser, token_expander, kwiversys::RegularExpression"), ("single objects", "kwiver_logger_manager::instance, algorithm_plugin_manager::instance, get_executable_path, get_module_path"), ("log", "default_logger::log_message_i"), ("caches of the C interface", "SharedPointerCache"), ("constant access", "the const functions of the value types")],
     ["what each thread sees; accesses to memory without synchronization; the log"],
     "Generated programs run by threads at once and then alone, under the thread sanitizer, which reports an unsynchronized access whatever the schedule was; schedules themselves are sampled.",
     "property-based testing: concurrent run compared with the same programs alone, thread sanitizer as oracle")
