import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

p("C01","The public notification file is only ever replaced atomically",
 "The public RRDP notification file only ever changes by an atomic rename, inside its own directory, of a completely and successfully written new version. It is never opened for writing in place, truncated, copied over or removed.",
 ["crash_points","schedules","inputs"],"every run, every point at which a run may be interrupted or fail, and every moment at which a relying party may read the file",
 "The tests only look at the directory after a run has finished; a write in place leaves the same end state.",
 ["src/rrdp.rs","src/file_ops.rs"],[("temporary file then rename","src/rrdp.rs RrdpState::write_notification"),("file writer","src/file_ops.rs write_buf")],
 observe=["the public RRDP directory"])
p("C02","The notification is switched only after everything it lists is in place",
 "At the moment a run replaces the public notification file, every snapshot and delta file which the new version lists already exists, complete, in the same public directory tree, at the path its listed URI maps to. Nothing is ever placed in or announced from a different base directory than the one the notification file itself is published in.",
 ["crash_points","histories","configurations","fault_sequences"],"every run, every sequence of earlier runs and configurations (also a changed RRDP directory setting), and every failing file operation",
 "The tests run the happy path in one fixed directory and compare the end state only, so the order of the operations, partially failing moves and a base directory that changed between runs are not exercised.",
 ["src/process.rs","src/rrdp.rs","src/file_ops.rs"],[("move of staged files","src/rrdp.rs RrdpState::apply_staged_changed, src/file_ops.rs move_file"),("notification written after apply","src/process.rs process"),("URI and path mapping","src/rrdp.rs SourceMappings")],
 observe=["the public RRDP directory"])
p("C03","Only files matching their announced hash are published and listed",
 "Every snapshot and delta file that a run puts in the public RRDP directory was, in that same run, compared in full with the hash the source announced for it, and a mismatch makes the run fail. The new notification file lists the file under the URI and hash, and carries the session and serial, that the source announced.",
 ["inputs","fault_sequences","histories"],"every response of the source (also a not-modified or truncated one), every content left behind in the staging area by an earlier run",
 "The fixtures always match their hashes and the staging area always starts empty; one short-cut on the retrieval path is not visible to them.",
 ["src/fetch.rs","src/rrdp.rs"],[("hash check on fetch","src/fetch.rs FetchSource::fetch"),("hash check on re-use of a staged file","src/fetch.rs Fetcher::retrieve_file"),("listing","src/rrdp.rs RrdpState::make_notification_file")])
p("C04","Only files that parse as RRDP for the announced serial are published",
 "A snapshot or delta file is published only if the run parsed it successfully as an RRDP snapshot or delta carrying the announced session and the announced serial (for a delta, its own serial in the list). Otherwise the run fails and nothing is published, also when rsync output is disabled.",
 ["inputs","configurations"],"every snapshot and delta content the source can serve, with and without rsync output and validation",
 "All fixtures are well formed and belong to the session and serial under which they are listed.",
 ["src/rrdp.rs"],[("parse of staged files","src/rrdp.rs RrdpState::snapshot_stage, RrdpState::deltas_stage")])
p("C05","Published serials never go back and sessions are never mixed",
 "While the source keeps its session, a run publishes only if the announced serial is higher than the published one: a lower serial makes the run fail and an equal one leaves everything as it was. When the source announces a different session the run publishes it, whatever the serial, and lists none of the previous session's deltas.",
 ["histories","inputs"],"every history of notification files with any order of sessions and serials",
 "The tests see three rising serials and one session change; a lower serial, an equal serial, and a session change to a lower, equal or higher serial are not covered.",
 ["src/rrdp.rs"],[("comparison of sessions and serials","src/rrdp.rs RrdpState::update_staged"),("dropping the deltas of the old session","src/rrdp.rs RrdpState::apply_staged_changed, deltas_deprecate_all")])
p("C06","Gapped delta lists are refused; the limit and cut-off rule the published list",
 "A run fails without publishing if the source's delta list, cut to the newest entries allowed by the configured maximum (any number, zero included), has a gap. The published list then holds exactly the deltas already held whose serial is not below the oldest remaining source delta (below the announced serial if none remain), plus those source deltas newer than the newest one held (all of them after a session change), newest first and none twice.",
 ["inputs","histories","configurations"],"every delta list and every maximum, over any history of updates",
 "The tests use one limit (3) and two gap-free lists.",
 ["src/rrdp.rs"],[("sort, limit and verify","src/rrdp.rs RrdpState::update_staged"),("selection of new deltas","src/rrdp.rs RrdpState::deltas_stage"),("cut-off","src/rrdp.rs deltas_deprecate_before")])
p("C07","Published RRDP files are not deleted early",
 "A run deletes a file from the public RRDP directory only if it was recorded as superseded at least the configured number of seconds ago, is not listed in the notification file now published (also not when it was superseded and later listed again), and only after the new notification file is in place. Directories are only removed when empty.",
 ["histories","configurations","crash_points"],"every history of updates, every clean-up age (zero included), and every interruption",
 "One history with a two second age is tested; files that come back, an age of zero, and the order of clean-up and notification are not.",
 ["src/rrdp.rs","src/file_ops.rs","src/process.rs"],[("age filter","src/rrdp.rs RrdpState::clean"),("removal","src/file_ops.rs remove_file_and_empty_parent_dirs")])
p("C08","Every RRDP file that is no longer listed is scheduled for removal",
 "When a run publishes, each previously listed snapshot or delta file which the new notification file does not list is recorded as superseded at that time. A record disappears only when the file is listed again, or, once the configured age has passed, with the file removed from disk if it was still there.",
 ["histories"],"every history of updates, session changes and re-appearing deltas",
 "The tests check a few files after one specific history; a file that is dropped without being recorded just stays on disk for ever.",
 ["src/rrdp.rs"],[("recording superseded files","src/rrdp.rs apply_staged_changed, deltas_deprecate_before, deltas_deprecate_all"),("forgetting records","src/rrdp.rs RrdpState::clean")])
p("C09","A failing step fails the run and stops publication",
 "If any step of a run fails (reading state, fetching, parsing, verifying, writing, moving, switching, cleaning up or saving), the process reports it and exits with a non-zero status, and after the failure the run neither replaces the notification file nor saves the RRDP state. The only failures that are tolerated are those with a documented fallback: a rename that is redone as copy and delete, leaving non-empty parent directories, an unusable staged leftover that is fetched again, and a file time that cannot be set.",
 ["fault_sequences","inputs"],"every single operation of the run failing, alone or in any combination",
 "The tests contain no failing file or network operation.",
 ["src/main.rs","src/process.rs","src/rrdp.rs","src/rsync.rs","src/file_ops.rs","src/fetch.rs"],[("error propagation to main and exit code","src/main.rs main"),("fallback copy","src/file_ops.rs move_file")])
p("C10","The RRDP state is saved after, and whenever, the notification is switched",
 "The saved RRDP state never gets ahead of what is published: a run saves it only after it has replaced the notification file, and what it saves is the state which that notification file was produced from. A run that replaced the notification file and reports success has saved the state.",
 ["crash_points","fault_sequences"],"every interruption or failure between any two steps of a run",
 "No test interrupts a run; saving early leaves the same end state when everything succeeds.",
 ["src/process.rs","src/rrdp.rs"],[("order of the last steps","src/process.rs process"),("saving","src/rrdp.rs RrdpState::persist")])
p("C11","State files survive a crash while they are being saved",
 "The saved RRDP state and the saved rsync state are only ever replaced by an atomic rename, in the same directory, of a completely and successfully written new version. An interruption at any point therefore leaves either the old or the new state readable for the next run.",
 ["crash_points"],"every point at which a run may be killed",
 "No test kills a run.",
 ["src/rrdp.rs","src/rsync.rs","src/file_ops.rs"],[("saving RRDP state","src/rrdp.rs RrdpState::persist"),("saving rsync state","src/rsync.rs RsyncDirState::persist")])
p("C12","Only one run at a time works on a state directory",
 "From before its first access to saved state, source or output until after its last one, a run holds an exclusive lock tied to its state directory alone. If the lock is taken or cannot be obtained the run ends with an error and has changed nothing.",
 ["schedules"],"every overlap of two or more runs that use the same state directory",
 "The lock is taken in the binary, which no test executes, and no test runs two processes.",
 ["src/main.rs","src/config.rs"],[("lock acquisition and lifetime","src/main.rs lock, try_main"),("lock file location","src/config.rs Config::lock_file")])
p("C13","Source-chosen RRDP names cannot leave the RRDP and staging directories",
 "Whatever snapshot and delta URIs the source announces, every file that a run reads, writes, moves, lists or deletes on their account lies beneath the staging directory, the public RRDP directory or the configured local source directory. A URI outside the base of the notification URI, or one whose remainder holds an empty, '.' or '..' segment, makes the run fail before any such file is touched.",
 ["inputs"],"every snapshot and delta URI that the notification parser accepts",
 "All fixture URIs are plain.",
 ["src/rrdp.rs","src/fetch.rs","src/config.rs"],[("URI to relative path","src/rrdp.rs SourceMappings::relative")])
p("C14","Published object names cannot leave the new rsync revision directory",
 "Whatever object URIs a snapshot contains, and whether or not host and module are included in the path, each object is written beneath the directory created for that revision. An object whose host or module would be a '.' or '..' path segment makes the run fail.",
 ["inputs","configurations"],"every object URI that the snapshot parser accepts, both path layouts",
 "All fixture URIs are plain.",
 ["src/rsync.rs"],[("object path","src/rsync.rs RsyncFromSnapshotWriter::publish")])
p("C15","A run that finds nothing new changes nothing",
 "A run whose source reports its notification file as unmodified, or announces the session and serial already published, exits successfully without writing, moving or removing anything in the public RRDP directory, in the rsync directory or in the saved state.",
 ["histories","inputs"],"every such run at any point of any history",
 "No test repeats a run on the same source.",
 ["src/process.rs","src/rrdp.rs"],[("early return","src/process.rs process, src/rrdp.rs RrdpState::update_staged")])
p("C16","rsync clients only ever see complete, unchanging revisions",
 "The rsync 'current' link is switched, by one atomic rename of a fresh link, only after every object of the snapshot has been written successfully below the new revision's own directory. The directory that 'current' refers to is never written to, and a link left over from an interrupted run never prevents the switch.",
 ["crash_points","schedules","fault_sequences"],"every interruption, failing write, repeated run for the same serial and concurrent rsync session",
 "The tests look at the directory after successful runs only and never repeat a serial.",
 ["src/rsync.rs"],[("write then switch","src/rsync.rs update_from_rrdp_state"),("link replacement","src/rsync.rs symlink_current_to_new_revision_dir")])
p("C17","rsync revisions are kept for the configured time and then removed",
 "An rsync revision directory is deleted only if it is not the current one and was recorded as superseded at least the configured number of seconds ago. Each revision that stops being current is recorded as superseded at that time, the current revision never is, and a record disappears only when its age has passed and its directory is gone, or when its revision becomes current again.",
 ["histories","configurations"],"every history of updates, repeated or interrupted runs for the same serial, and every clean-up age",
 "One history with a two second age is tested, without a repeated serial.",
 ["src/rsync.rs"],[("current and superseded revisions","src/rsync.rs RsyncDirState::update_current"),("clean-up","src/rsync.rs RsyncDirState::clean_old")])
p("C18","The rsync tree holds each snapshot object, unaltered, at its own path",
 "Every object in the snapshot is written below the new revision's directory, at the path given by its URI (preceded by host and module if so configured), with exactly the bytes in the snapshot, and otherwise the run fails. The only time stamp given to an object is derived from the object itself.",
 ["inputs","fault_sequences","configurations"],"every snapshot, both path layouts, every failing read or write",
 "One snapshot is written with one layout and four file times are compared; content is not.",
 ["src/rsync.rs"],[("object writer","src/rsync.rs RsyncFromSnapshotWriter::publish, fix_since")])
p("C19","The rsync tree shows the same snapshot as the RRDP notification, or nothing",
 "The rsync revision made current by a run is built from the very snapshot file which that run then lists in its notification file, and is named after its session and serial; with rsync enabled the notification is not replaced unless the rsync step succeeded. With rsync disabled a run does not touch the rsync directory or its saved state.",
 ["configurations","fault_sequences","histories"],"every configuration, history and failing step",
 "The tests do not compare rsync with RRDP content and never disable rsync.",
 ["src/process.rs","src/rsync.rs"],[("rsync step","src/process.rs process, src/rsync.rs update_from_rrdp_state")])
p("C20","With rejection on, nothing is published unless TAL validation was clean",
 "If trust anchor locators are configured and rejection of invalid content is on, a run changes the public RRDP directory, the rsync directory or the saved state only after validation under all configured locators completed, covered the source repository, and reported no issue for it. With rejection off validation issues never stop a run, and without locators no validation is done.",
 ["inputs","configurations"],"every validation outcome and every combination of options",
 "No test configures locators in a run.",
 ["src/process.rs","src/rrdp.rs","src/validation/validator.rs"],[("gate","src/rrdp.rs RrdpState::pre_validate"),("order","src/process.rs process")])
p("C21","Every validation script is run first, and a failing one is obeyed",
 "Every configured validation script is run to completion, one after the other and also after one has failed, before a run changes the public RRDP directory, the rsync directory or the saved state. If a script cannot be started the run fails; if any script reports failure and rejection is on, the run fails without publishing, and with rejection off it continues.",
 ["inputs","configurations","fault_sequences"],"every list of scripts and every combination of outcomes",
 "No test configures a script.",
 ["src/process.rs"],[("script loop and gate","src/process.rs process")])
p("C22","Validation looks at the staged update, not at older data",
 "Whenever validation is configured, each run that has an update validates against the staged notification file of that run: it is read again before validation starts, however recently the repository was last checked and also in offline mode, and if its data cannot be obtained the run fails. Validation data kept from earlier runs is re-used only when the locators and the source's own configuration are unchanged.",
 ["histories","configurations"],"every history of runs at any interval, with validation data kept from earlier runs",
 "The only validator test starts from empty data and validates once.",
 ["src/rrdp.rs","src/validation/validator.rs"],[("refresh before validation","src/validation/validator.rs Validator::initialise_staging_data, VisitedRepositories::get_latest"),("re-use","src/rrdp.rs reconfigure_validator, src/validation/validator.rs Validator::equivalent")])
p("C23","An object counts as valid only if it passed every check",
 "Validation accepts a CA's objects only under a manifest and CRL of that CA that were both found, decoded, validly signed, not stale, with the CRL listed on the manifest with a matching hash and the manifest not revoked. It then accepts a ROA, ASPA, CA certificate or router certificate only if it is listed on that manifest, was found with a matching hash, decoded, validated under that CA's certificate, and is not revoked by that CRL.",
 ["inputs"],"every set of repository objects",
 "One good repository is validated and its report is not inspected.",
 ["src/validation/validator.rs"],[("top down validation","src/validation/validator.rs Validator::validate_tree_at")])
p("C24","No rejected object and no failing CA goes unreported",
 "For each manifest entry of a CA (other than its CRL) validation reports exactly one of accepted, ignored or an issue, and each condition that stops the validation of a CA is reported as an issue for that CA. All of it, including that of every accepted child CA, reaches the report on the repository that the CA publishes in.",
 ["inputs"],"every set of repository objects and CA trees",
 "The one validation test does not inspect the report.",
 ["src/validation/validator.rs","src/validation/report.rs"],[("issue reporting","src/validation/validator.rs Validator::validate_tree_at"),("merging of reports","src/validation/report.rs ValidationReport::add_cert, ValidationReport::add_other")])
p("C25","A trust anchor is accepted only with the key from its locator",
 "Validation under a trust anchor locator starts only from a certificate which is valid as a trust anchor at the time of validation and has exactly the public key given in the locator. Anything else makes validation fail.",
 ["inputs","fault_sequences"],"every locator and every certificate a location can serve",
 "One matching locator and certificate are tested.",
 ["src/validation/tal.rs"],[("trust anchor check","src/validation/tal.rs Tal::validate_at")])
p("C26","Validation data of a repository always matches its notification file",
 "After an update, the repository data used for validation is that of the session and serial in the notification file just read: from a chain of hash-checked deltas that starts right after the data held and ends at that serial, each update and withdrawal matching the object it replaces, or else from the hash-checked snapshot. If neither works the data is dropped, and partly updated data is never used.",
 ["inputs","histories","fault_sequences"],"every notification, delta list and snapshot a repository can serve, every history of updates",
 "The tests build repository data once from a snapshot; delta application is not run.",
 ["src/validation/validator.rs"],[("update with fallback","src/validation/validator.rs VisitedRepositories::get_latest"),("delta application","src/validation/validator.rs update_repository_data_from_deltas"),("snapshot","src/validation/validator.rs repository_data_from_snapshot")])
p("C27","The source's certificate is checked unless --insecure is given",
 "When notification, snapshot and delta files are fetched for publication over HTTPS, an invalid certificate or a host name mismatch makes the run fail, with or without a source base override, unless the user gave the insecure option. No other option, state or response switches the check off.",
 ["configurations","inputs","histories"],"every combination of options, sources and saved state",
 "No test makes a network connection.",
 ["src/fetch.rs","src/config.rs"],[("mode to client option","src/fetch.rs FetchSource::fetch"),("mode from option","src/config.rs Config::fetcher, post_configure")])
p("C28","Only a 200 response is data and only a 304 means unmodified",
 "Content is taken from an HTTP response only if its status is 200, a source counts as unmodified only if its status is 304, and every other status or a broken response is an error. Each request has a finite time-out, and the condition sent with it is only ever the ETag that came with content which was then fully processed.",
 ["inputs","fault_sequences","histories"],"every HTTP response and history of responses",
 "The tests read the source from disk.",
 ["src/fetch.rs","src/validation/validator.rs"],[("status handling","src/fetch.rs FetchSource::fetch"),("ETag life cycle","src/rrdp.rs NotificationSource, src/validation/validator.rs RepositoryData")])
p("C29","With a source base configured, only that source is contacted",
 "If a source base is configured, the notification file and every snapshot and delta file are fetched from beneath that base, at the path that the URI has beneath the base of the notification URI. A URI outside that base makes the run fail, and the public server itself is never contacted in its place.",
 ["inputs","configurations"],"every announced URI, with a source base on disk or over HTTPS",
 "Two URIs are resolved against two bases.",
 ["src/fetch.rs","src/config.rs"],[("mapping","src/fetch.rs FetchMap::source, Fetcher::resolve_source"),("set-up","src/config.rs post_configure")])
p("C30","All state is carried over from one run to the next",
 "Everything that a run saves is read back by the next one: each part of the saved RRDP and rsync state (current snapshot, deltas, superseded files, mappings, validation data, current and superseded revisions) is written and read under the same name and in the same encoding, and none is left out except the per-run fetch marker.",
 ["histories"],"every state that a run can save",
 "The only test that reads a saved state misses its fixture and fails; the other tests cover a few fields indirectly.",
 ["src/rrdp.rs","src/rsync.rs","src/util.rs","src/validation/validator.rs","src/fetch.rs"],[("serialisation of state","src/rrdp.rs RrdpState and its parts, src/rsync.rs RsyncDirState and its parts, src/util.rs ser_*/de_*")])
p("C31","Validation of any CA tree terminates",
 "Validation descends at most a fixed number of levels below a trust anchor, so that certificates which certify themselves or each other cannot make it recurse for ever; a CA beyond the limit is reported as an issue.",
 ["inputs"],"every tree of CA certificates, cyclic ones included",
 "The tested tree is two levels deep.",
 ["src/validation/validator.rs"],[("recursion","src/validation/validator.rs Validator::validate_tree_at")])
p("C32","Deltas and snapshot of one notification describe the same objects",
 "A relying party that applies the published deltas to any earlier published snapshot of the session ends up with exactly the objects of the published snapshot.",
 ["inputs","histories"],"every snapshot and delta content",
 "Depends on file content that is never compared by any test.",
 ["src/rrdp.rs"],[("files are taken from the source as they are","src/rrdp.rs RrdpState::deltas_stage, RrdpState::snapshot_stage")])
p("C33","A run finishes in time for the next one",
 "A run over a repository of any size finishes within the interval at which it is started.",
 ["inputs","configurations"],"every repository size and link speed",
 "Time is not measured by any test.",
 ["src/process.rs","src/fetch.rs"],[("request time-out","src/fetch.rs FetchSource::fetch")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
