#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the file stays valid JSON lines)."""
import json, os
P = []
def prop(id, title, statement, over, text, tests, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "The calibration database lists exactly what was registered",
 "After any history of registering, re-registering, removing and scanning calibration products, through any number of database handles opened on the same file and across process restarts, the stored database holds exactly one row per registered file, keyed by its absolute path, carrying the metadata of that file's most recent registration, and no other rows. Removing a file that is not registered is refused and changes nothing. Operations asked not to touch the disk leave the stored database unchanged until it is explicitly saved, and a load discards them.",
 ["histories", "schedules"], "every finite sequence of register / re-register / remove / save / load / open / restart operations, every interleaving (at operation granularity) of several handles on one file, every supported product class and metadata value",
 "tests/test_caldb.py registers and removes one or two products through one handle; it never interleaves handles, restarts, or mixes in-memory and on-disk operations.",
 ["corgidrp/caldb.py"], [("load-modify-save upsert keyed by absolute path", "corgidrp/caldb.py:CalDB.create_entry, remove_entry"), ("CSV store", "corgidrp/caldb.py:CalDB.load/save")],
 [("database CSV", "the durable table of calibrations", "corgidrp.caldb_filepath"), ("in-memory table", "handle-local view", "CalDB._db")],
 ["CalDB public methods", "the CSV file"])
prop("C02", "Calibration lookup returns the best registered match",
 "For any reference frame and any history of the database, looking up a calibration type returns a product of that type that is currently registered and whose validity time is nearest to the frame's (for darks: among those with exactly the frame's exposure time), or, without a reference frame, the most recently created one. If no registered product qualifies, the lookup fails with a value error and never returns a product of another type, an unregistered product or a worse match. A lookup never changes the stored database.",
 ["histories", "inputs", "schedules"], "every registration history over several handles (including removals, re-registration with changed metadata and clock steps between product creations) and every reference frame",
 "test_caldb.py and test_walker.py look up against two entries in one fixed order; the guarantee is over all histories, with entries added, removed and updated through other handles in between.",
 ["corgidrp/caldb.py"], [("down-select by type and exposure time then argmin of |dMJD| / argmax creation date", "corgidrp/caldb.py:CalDB.get_calib")],
 [("Type/MJD/EXPTIME/Date Created columns", "selection keys", "caldb CSV")], ["CalDB.get_calib return value"])
prop("C03", "The calibration database survives crashes and storage errors",
 "If the process dies, or a write fails, at any point of any database operation, the stored database can afterwards be opened and holds exactly the state from before or after the interrupted operation (for a scan, the state after some prefix of its registrations); every operation that had returned is still there. A storage error is reported to the caller rather than swallowed, and once the fault is gone repeating the operation gives the fault-free result. A concurrent reader never sees a partially written database.",
 ["crash_points", "fault_sequences", "histories"], "every crash point between any two storage operations and inside any write, every disk-full or I/O error at any storage call, over arbitrary operation histories",
 "no test injects a crash or storage error; the tests only ever see complete files.",
 ["corgidrp/caldb.py"], [("save of the whole table", "corgidrp/caldb.py:CalDB.save")],
 [("database CSV", "durable table", "corgidrp.caldb_filepath")], ["CSV file after restart", "CalDB(...) after restart"])
prop("C04", "Directory scans register every calibration product once, in any order",
 "Scanning a directory tree registers every calibration product below it (only the top level if sub-folders are excluded) exactly once under its own type, skips frames that are not calibrations and files that are not FITS products, and leaves other entries alone. The resulting database content does not depend on the order in which the file system lists files and folders, and scanning again, or re-scanning after an interrupted scan, reaches the same content.",
 ["schedules", "crash_points", "configurations"], "every directory layout over all calibration product classes, every directory listing order, every interruption point followed by a re-scan",
 "test_caldb.py scans one flat directory with a couple of default files in whatever order the host returns.",
 ["corgidrp/caldb.py", "corgidrp/data.py"], [("os.walk + autoload + upsert", "corgidrp/caldb.py:CalDB.scan_dir_for_new_entries"), ("type dispatch on the DATATYPE keyword", "corgidrp/data.py:autoload")],
 [("database CSV", "durable table", "corgidrp.caldb_filepath")], ["CSV content after scan"])
prop("C05", "Saving a product is all-or-nothing",
 "When saving any product is interrupted by process death or a storage error at any point, the target path afterwards holds either the complete previous file or the complete new one (or is still absent if it did not exist), never a truncated or mixed file, and a previously saved product is never lost. A failed save raises an error, repeating it after the fault clears succeeds, and other files are untouched.",
 ["crash_points", "fault_sequences", "histories"], "every product class, every crash point and storage error inside a save, first saves and overwrites (including saving a product over the file it was loaded from)",
 "tests only perform saves that run to completion on a healthy disk.",
 ["corgidrp/data.py"], [("write of the FITS HDU list", "corgidrp/data.py:Image.save, KGain.save, Dataset.save")],
 [("FITS product", "durable product", "outputdir/*.fits")], ["file at the target path after restart"])
prop("C06", "Saved products reload unchanged",
 "A product of any class, after any history of in-memory edits, copies, saves and reloads across processes, reloads from disk as the same class with identical data, uncertainty layers, data-quality flags, user-set header values, history and additional extensions, whether it is opened by its own class or by automatic type detection. Its content hash is the same in memory, after reload and in every process, and differs when the data, uncertainties or flags differ.",
 ["histories", "configurations"], "all product classes, dtypes and array shapes they support, every sequence of edit/copy/save/reload/restart, individual-error tracking on or off",
 "tests round-trip single fixed products once within one process.",
 ["corgidrp/data.py"], [("constructor from file and save", "corgidrp/data.py:Image.__init__, save, copy"), ("type detection", "corgidrp/data.py:autoload"), ("content hash", "corgidrp/data.py:Image.get_hash")],
 [("data/err/dq/headers/hdu_list", "product content", "corgidrp/data.py:Image")], ["constructor/autoload return values", "get_hash()"])
prop("C07", "Start-up configuration survives interruption and keeps user settings",
 "Whatever point the first start-up is killed at or fails at, the next start-up succeeds and yields a complete configuration: a database path, a default-calibration folder and the three pipeline switches. A legacy single-file configuration is migrated with its database path preserved even if the migration is interrupted, and settings a user has edited are honoured and never overwritten by later start-ups.",
 ["crash_points", "fault_sequences", "histories"], "every interruption point of start-up, any number of interrupted start-ups in a row, fresh, legacy and user-edited configurations",
 "importing the package in a test environment runs start-up once, uninterrupted.",
 ["corgidrp/__init__.py"], [("create_config_dir / update_pipeline_settings", "corgidrp/__init__.py")],
 [("~/.corgidrp/corgidrp.cfg", "configuration", "config_folder")], ["corgidrp.caldb_filepath, default_cal_dir, track_individual_errors, skip_missing_cal_steps, jit_calib_id after import"])
prop("C08", "Default calibrations are always available after start-up",
 "After any start-up that completes, however many earlier start-ups were interrupted, the default detector parameters and default focal-plane-mask alignment products exist, are readable, are registered in the configured calibration database and can be looked up. A start-up never removes or alters products and database entries the user already had.",
 ["crash_points", "histories"], "every interruption point of first initialisation, repeated interruptions, user products already registered, partially deleted default files",
 "tests run initialisation once in a healthy home directory.",
 ["corgidrp/caldb.py"], [("initialize()", "corgidrp/caldb.py:initialize")],
 [("default_calibs/*.fits", "default products", "corgidrp.default_cal_dir"), ("database CSV", "registrations", "corgidrp.caldb_filepath")], ["CalDB.get_calib(None, DetectorParams/FpamFsamCal) after start-up"])
prop("C09", "Processing steps never alter their inputs and are repeatable",
 "Running any processing step, whether it completes or is aborted by an error partway (such as a failed memory allocation), leaves the dataset and the calibration products it was given unchanged in data, uncertainties, flags and headers. Running it again on the same inputs gives the same result apart from creation time stamps, and later changes to the result never reach back into the inputs' headers, or into the calibration products.",
 ["histories", "fault_sequences", "inputs"], "every sequence of steps over a shared store of datasets, with retries and an allocation failure at any point inside a step",
 "unit tests feed each step a fresh dataset and look at the output; they neither compare the input afterwards nor abort a step halfway.",
 ["corgidrp/l1_to_l2a.py", "corgidrp/l2a_to_l2b.py", "corgidrp/l2b_to_l3.py", "corgidrp/l3_to_l4.py", "corgidrp/l4_to_tda.py", "corgidrp/combine.py", "corgidrp/darks.py", "corgidrp/photon_counting.py", "corgidrp/bad_pixel_calibration.py", "corgidrp/sorting.py", "corgidrp/flat.py"],
 [("copy-on-entry (`dataset.copy()`)", "first line of each step function"), ("Image.copy", "corgidrp/data.py:Image.copy")],
 [("dataset arrays and headers", "inputs shared between steps", "corgidrp/data.py:Dataset")], ["input dataset before/after a step", "step result"])
prop("C10", "A dataset and its frames always show the same pixels",
 "After any history of in-place edits, processing updates, error-term additions, rescalings, sub-setting, splitting, copying, saving and reloading, a dataset's stacked arrays and its frames' arrays hold identical values, and an edit through either is visible through the other. A full copy shares nothing with its original; a headers-only copy shares pixels but never headers.",
 ["histories"], "every sequence of dataset and frame operations on datasets of any size, 2-D or 3-D frames, individual-error tracking on or off",
 "tests check the pixel link after construction and after one or two operations.",
 ["corgidrp/data.py"], [("frames re-pointed into the stacked cube", "corgidrp/data.py:Dataset.__init__, update_after_processing_step, add_error_term, rescale_error"), ("copy", "corgidrp/data.py:Dataset.copy, Image.copy")],
 [("all_data/all_err/all_dq", "stacked arrays", "corgidrp/data.py:Dataset")], ["Dataset.all_*, frame.data/err/dq"])
prop("C11", "Data levels only advance one step at a time and history only grows",
 "For any sequence of processing steps a dataset's level moves only L1, L2a, L2b, L3, L4, TDA in that order through the matching level-update step; a level update on data of any other level is refused and changes nothing. Every completed step appends to the frames' history and never removes or rewrites earlier history or, except where the step is defined to drop frames, the identity (file name) of frames.",
 ["histories"], "every sequence of processing and level-update steps, including retries and out-of-order requests",
 "tests call each update once on data of the right level.",
 ["corgidrp/l1_to_l2a.py", "corgidrp/l2a_to_l2b.py", "corgidrp/l2b_to_l3.py", "corgidrp/l3_to_l4.py", "corgidrp/l4_to_tda.py"],
 [("update_to_* gates", "update_to_l2a/l2b/l3/l4/tda"), ("update_after_processing_step", "corgidrp/data.py")],
 [("DATALVL, HISTORY", "processing state in the headers", "ext_hdr")], ["ext_hdr of step outputs"])
prop("C12", "Quality flags and uncertainties are never silently dropped",
 "Through any sequence of pixel-level processing steps a data-quality bit set on a pixel stays set, steps that add an uncertainty term never lower the combined uncertainty, and the combined uncertainty layer always comes first. With individual tracking on, every added term is kept as its own named layer across steps, saves and reloads, and with it off only the combined layer is kept.",
 ["histories", "configurations"], "every sequence of steps that keep the pixel grid, on frames with arbitrary initial flags and uncertainties, error tracking on or off, with save/reload in between",
 "tests check the flag or error added by one step on clean input.",
 ["corgidrp/l1_to_l2a.py", "corgidrp/l2a_to_l2b.py", "corgidrp/l2b_to_l3.py", "corgidrp/data.py"],
 [("bitwise-or accumulation of flags", "detect_cosmic_rays, dark_subtraction, correct_bad_pixels, flat_division"), ("add_error_term", "corgidrp/data.py:Image.add_error_term")],
 [("dq, err, err_hdr Layer_n", "quality and uncertainty layers", "corgidrp/data.py:Image")], ["dq/err of step outputs and reloaded products"])
prop("C13", "A recipe run does exactly what the recipe says",
 "Running a recipe applies its steps once each in the listed order, with the listed keywords and calibration files passed in the listed order, leaving out exactly the steps marked to be skipped, and every save step writes all current frames under the output folder with the requested suffix and registers every calibration product it writes. Each output's headers and the recipe file saved with it record the recipe that was run, and re-running that recorded recipe reproduces the same pixels, uncertainties, flags and file names.",
 ["histories", "programs", "configurations"], "every recipe over the available steps, any placement of save, skip and suffix, calibrations resolved up front or just in time",
 "tests run a handful of fixed templates and inspect a few headers.",
 ["corgidrp/walker.py"], [("run_recipe loop", "corgidrp/walker.py:run_recipe"), ("save_data", "corgidrp/walker.py:save_data")],
 [("recipe dictionary", "program being interpreted", "corgidrp/walker.py"), ("RECIPE keyword and *_recipe.json", "record of the run", "outputs")], ["step functions called", "output files", "database"])
prop("C14", "A failed recipe run leaves no damage and can simply be rerun",
 "If a recipe run dies or fails at any point, raw inputs are untouched, every file in the output folder that has a product's name is complete and readable, everything registered in the calibration database exists on disk and is readable, and previously finished products are intact. Rerunning the same recipe after the fault clears produces the same products and database content as a run that never failed.",
 ["crash_points", "fault_sequences"], "every crash point, storage error or step failure during a recipe run, any number of failed attempts before a successful one",
 "no test interrupts a recipe.",
 ["corgidrp/walker.py", "corgidrp/data.py", "corgidrp/caldb.py"], [("save then register ordering", "corgidrp/walker.py:save_data")],
 [("outputdir and database", "durable effects of a run", "outputdir, caldb CSV")], ["files and database after rerun"])
prop("C15", "Runs in one session do not influence each other",
 "The products of a recipe run depend only on that recipe, its inputs, its calibrations and the configured settings: not on which recipes ran or failed earlier in the same session. Pipeline settings given in one recipe apply to that run only, and generating recipes never alters the template passed in, so the same template used for several datasets gives each its own inputs and calibrations.",
 ["histories", "configurations"], "every order of generating and running recipes with differing settings, templates and outcomes in one process",
 "tests run one recipe per configuration and reload templates from disk.",
 ["corgidrp/walker.py", "corgidrp/__init__.py"], [("per-recipe settings applied to the package", "corgidrp/walker.py:run_recipe"), ("template personalisation", "corgidrp/walker.py:autogen_recipe")],
 [("package-level settings", "track_individual_errors, skip_missing_cal_steps, jit_calib_id", "corgidrp/__init__.py")], ["products of later runs", "settings after a run", "template dictionary after use"])
prop("C16", "Products do not depend on clock, listing order, hash seed or directory",
 "For the same inputs, calibrations and settings, a product's pixels, headers, provenance list, default file name, content hash and database row are the same in every process, whatever the interpreter's hash randomisation, time zone and random state, the directory listing order, the current working directory and whatever ran or failed before; only creation time stamps follow the clock. The provenance recorded in a combined product lists every contributing input file, including those of its parents, exactly once.",
 ["schedules", "configurations"], "all interpreter hash seeds, time zones, listing orders, clock values and steps, working directories, restarts and failed attempts, for every product class built from other frames",
 "tests run in one process with one hash seed and never compare two processes.",
 ["corgidrp/data.py", "corgidrp/caldb.py", "corgidrp/walker.py"], [("parent recording", "corgidrp/data.py:Image._record_parent_filenames"), ("content hash", "corgidrp/data.py:Image.get_hash")],
 [("FILEn/DRPNFILE", "provenance", "ext_hdr"), ("Hash column", "content hash", "caldb CSV")], ["product headers, file names, database rows across processes"])
prop("C17", "PSF subtraction does not depend on worker count or scheduling",
 "PSF subtraction of a given dataset yields the same pixels, flags, uncertainties and headers (other than time stamps) for any number of worker processes and any order in which the workers' tasks run and complete, for every subtraction mode. It leaves no other effect on its inputs.",
 ["schedules", "configurations"], "every worker count and task completion order, modes ADI, RDI and ADI+RDI",
 "tests use one fixed worker count and whatever schedule the host gives.",
 ["corgidrp/l3_to_l4.py", "corgidrp/data.py", "corgidrp/klip_fm.py"], [("task fan-out to a process pool", "corgidrp/l3_to_l4.py:do_psf_subtraction -> pyklip.parallelized"), ("PyKLIPDataset", "corgidrp/data.py")],
 [("shared-memory arrays", "worker inputs and outputs", "pyklip.parallelized")], ["do_psf_subtraction return value"])
prop("C18", "Automatic calibrations resolve at the promised moment and to the best match",
 "A recipe step's automatic calibration becomes the file the database lookup returns for the data: when the recipe is generated, or, with just-in-time resolution on, immediately before that step runs, so that it may be one produced earlier in the same run. An optional one that cannot be found is left out, a required one that cannot be found stops processing unless skipping is enabled, in which case exactly that step is skipped; explicitly named calibrations are never replaced.",
 ["histories", "schedules", "configurations"], "every interleaving of database changes with recipe generation and execution, every mix of automatic, optional and explicit calibrations and of the just-in-time and skip settings given by configuration or recipe",
 "test_walker.py covers one automatic, one just-in-time and one skip case with a static database.",
 ["corgidrp/walker.py", "corgidrp/caldb.py"], [("_fill_in_calib_files", "corgidrp/walker.py:_fill_in_calib_files"), ("just-in-time branch", "corgidrp/walker.py:run_recipe")],
 [("step['calibs']", "resolved calibrations", "recipe")], ["calibrations passed to step functions", "recipe record in headers"])
prop("C19", "Calibration products do not depend on the order frames arrive in",
 "Products that combine a set of exposures without regard to sequence (master darks, flats, combined frames, detector noise maps, photon-counted means, pupil-frame sorting, dataset splitting) have the same pixels, uncertainties, flags and provenance set for every order in which the input frames are supplied, up to floating-point summation error. Steps that treat each frame by itself give every frame the same result in whatever order or batches the frames are processed.",
 ["schedules", "inputs"], "every permutation of the input frames for each combining step, every order and batching of them for the frame-by-frame steps, after failed attempts in another order",
 "tests supply frames in one order.",
 ["corgidrp/darks.py", "corgidrp/flat.py", "corgidrp/combine.py", "corgidrp/photon_counting.py", "corgidrp/sorting.py", "corgidrp/data.py"], [("order-free reductions", "mean_combine, combine_images, get_pc_mean, split_dataset"), ("sort by time", "corgidrp/sorting.py:sort_pupilimg_frames")],
 [("input dataset", "frames in arrival order", "Dataset.frames")], ["combined product"])

NA = [
("N01", "Detector corrections are numerically right", "Bias, cosmic-ray, non-linearity, dark, flat, gain, CTI, desmear and bad-pixel corrections recover the true signal and propagate its variance within their stated tolerance for every valid detector frame.", ["corgidrp/l1_to_l2a.py","corgidrp/l2a_to_l2b.py","corgidrp/detector.py"], "prescan_biassub .. desmear"),
("N02", "Photon counting is unbiased", "Photon-counted means correct for thresholding and coincidence loss without bias for every flux within the supported range, and reject data outside it.", ["corgidrp/photon_counting.py"], "corr_photon_count"),
("N03", "Gain, non-linearity and noise-map calibration recover the truth", "Calibrated k-gain, read noise, non-linearity curves and detector noise maps agree with the detector that produced the frames within the reported uncertainty.", ["corgidrp/calibrate_kgain.py","corgidrp/calibrate_nonlin.py","corgidrp/darks.py"], "calibrate_kgain, calibrate_nonlin, calibrate_darks_lsq"),
("N04", "Astrometry and world coordinates are right", "Boresight, plate scale, north angle, distortion, star centring, world coordinates and north-up rotation map detector positions to sky positions within tolerance for every field.", ["corgidrp/astrom.py","corgidrp/l2b_to_l3.py","corgidrp/l3_to_l4.py","corgidrp/star_center.py"], "boresight_calibration, create_wcs, northup, find_star"),
("N05", "Flux calibration and photometry are right", "Flux factors, ND-filter optical densities, colour corrections, magnitudes and companion fluxes agree with the injected sources within tolerance for every filter and source.", ["corgidrp/fluxcal.py","corgidrp/nd_filter_calibration.py","corgidrp/l4_to_tda.py","corgidrp/measure_companions.py"], "calibrate_fluxcal_*, create_nd_filter_cal, determine_flux"),
("N06", "Charge traps are found and characterised", "Trap-pumping analysis finds the traps present in the frames and recovers their time constants, energies and cross sections within tolerance.", ["corgidrp/pump_trap_calibration.py"], "tpump_analysis"),
("N07", "PSF subtraction and throughput are calibrated", "KLIP throughput, core throughput maps and injected-companion recovery agree with the injected signal within tolerance.", ["corgidrp/klip_fm.py","corgidrp/corethroughput.py","corgidrp/l3_to_l4.py"], "meas_klip_thrupt, generate_ct_cal"),
("N08", "Input validation rejects malformed arguments", "Every argument checker accepts exactly the values it documents and raises the requested exception for all others.", ["corgidrp/check.py"], "corgidrp/check.py"),
("N09", "Every frame gets the recipe template its headers call for", "For every combination of data level, visit type and observing flags, the automatically chosen template(s) are the documented ones, and an unknown data level is rejected.", ["corgidrp/walker.py"], "guess_template"),
]
for id, title, st, files, mech in NA:
    prop(id, title, st, ["inputs"], "every valid input", "tests sample a few inputs with fixed tolerances", files, [(mech, files[0])])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
