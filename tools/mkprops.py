"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["resync/" + f if not f.startswith("resync-") else f for f in files],
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Baseline synchronization converges to the source",
  "After a successful baseline synchronization with deletion enabled, the files under the mapped destination directories are exactly the resources in the source's resource list, each with the source's bytes and with a modification time equal to the listed last-modification time in whole seconds; with deletion disabled the same holds except that local files the source does not list are left untouched. This holds for one or several mappings, for a web or a local source, for a resource list split over several files and whatever was at the destination before, provided each difference shows in the listed time (by a second or more), the listed length or a digest type the user asked for. Repeating the synchronization against the unchanged source downloads no resource that has a listed time and changes no file.",
  ["inputs", "histories", "configurations"],
  "every source content, prior destination content, set of mappings and option combination, followed by a repeated run",
  "The repository's tests never run a baseline synchronization that downloads anything; they only exercise single helper methods on one or two fixed files.",
  ["client.py", "resource_list.py", "resource_list_builder.py", "mapper.py", "resync-sync"],
  [("baseline_or_audit", "resync/client.py"), ("update_resource", "resync/client.py"), ("compare", "resync/resource_list.py"), ("from_disk", "resync/resource_list_builder.py")],
  ["destination file tree before/after", "request log of the HTTP source", "exit/exception and log of the client process"])

p("C02", "Audit reports exact counts and changes nothing",
  "An audit reports exactly how many resources are the same, to be created, to be updated and to be deleted when the source's resource list is compared with the local files, and it reports being in sync if and only if the last three counts are all zero. It downloads no listed resource and creates, modifies or deletes no file or directory, including the client's own stored synchronization state. The counts a baseline synchronization announces before acting are the same ones.",
  ["inputs", "configurations"],
  "every pair of source list and local tree, all option combinations",
  "Tests audit one tiny local tree; the counting and the no-side-effect claim range over all trees.",
  ["client.py", "resource_list.py", "resource.py"],
  [("baseline_or_audit(audit_only)", "resync/client.py"), ("log_status", "resync/client.py"), ("compare", "resync/resource_list.py")],
  ["status line of the client", "file tree snapshot", "file-system audit events", "request log"])

p("C03", "Sources cannot make the client write outside its mapped dirs",
  "Whatever URIs, file paths or change entries a source publishes, and with authority checking on or off, a synchronization creates, overwrites, re-dates or deletes files and directories only inside the destination directories of the mappings in use. The only exceptions are the client's own status file and log file in its working directory.",
  ["inputs", "configurations"],
  "every resource list and change list a hostile source could publish, every mapping",
  "No test maps a hostile URI; the property ranges over all URIs a source may choose.",
  ["mapper.py", "client.py"],
  [("src_to_dst", "resync/mapper.py"), ("update_resource/delete_resource", "resync/client.py")],
  ["interpreter audit events for every file-system effect", "tree snapshot of the sandbox outside the mapped roots"])

p("C04", "No change is made on behalf of a source without authority",
  "Unless authority checking is disabled, a baseline synchronization that has anything to do fails before downloading any resource or changing any file if any listed resource lies outside the authority of the resource list's location, that is, has a different scheme or a host (with its port) that is neither the same nor a sub-domain, or, in strict mode, a path that is not in or below the directory of that location. An incremental synchronization does the same for any entry of the change list, judged by the location of the change list or, when the user did not name a change list, alternatively by that of the resource list. A list that lies wholly within authority is never refused on these grounds, and with checking disabled none is. The same judgement is what UrlAuthority gives for any pair of URIs, and what a reader of a list in parts asked to check them (check_url_authority) applies to the parts of an index on the web.",
  ["inputs", "configurations"],
  "all URIs, document locations, strict and lax mode, baseline and incremental, explicit and default change list",
  "Tests check a dozen URL pairs on the helper class and never the synchronization that must stop.",
  ["url_authority.py", "client.py", "resync-sync"],
  [("has_authority_over", "resync/url_authority.py"), ("authority loops in baseline_or_audit and incremental", "resync/client.py")],
  ["request log of the source", "destination tree", "outcome of the client run"])

p("C05", "Incremental sync applies exactly the latest change per URI",
  "An incremental synchronization considers only the changes at or after its start time (the explicit one if given, else the stored one) and for each URI applies only the last of them: a creation or update leaves the current source bytes locally with the listed last-modification time in whole seconds, and a deletion removes the local file only if deletion is enabled. A URI whose considered changes begin with a creation and end with a deletion is not downloaded, and only a copy that is already there is subject to the deletion. No other file is downloaded, changed or deleted, and the change list may be a single file or split over several. Without a usable start time, or with a change that has no time at all, it ends with an error and does nothing.",
  ["inputs", "histories", "configurations"],
  "every change list, start time, specification version and prior local tree",
  "No test runs an incremental synchronization at all.",
  ["client.py", "change_list.py", "resource_container.py", "list_base_with_index.py"],
  [("incremental", "resync/client.py"), ("prune_updates_before", "resync/change_list.py"), ("prune_dupes", "resync/resource_container.py")],
  ["destination tree before/after", "request log", "file-system events"])

p("C06", "No update is lost over a history of synchronizations",
  "Over any history of source changes (with non-decreasing change times, published as a resource list and a change list) interleaved with successful baseline and incremental synchronizations that allow deletion and rely on the stored start time, the destination equals the source as published after every synchronization. Unless the user asked to ignore failures, the stored start time never moves past a published or future change that has not been applied, whatever files and file dates exist at the destination. A successful synchronization that downloads something stores the latest time it met (listed times of what it downloaded for a baseline, times of all published changes for an incremental), so that the next incremental one can go on from there; one that fails or is a dry run leaves the stored start time as it was.",
  ["histories", "fault_sequences"],
  "all interleavings of source changes, publications, baseline syncs, incremental syncs, failures and local edits",
  "The tests contain no history of more than one synchronization and never look at the stored time across runs.",
  ["client.py", "client_state.py", "change_list.py"],
  [("last_timestamp bookkeeping", "resync/client.py"), ("set_state/get_state", "resync/client_state.py")],
  ["destination tree after each step", "stored state through the public state API", "request log"],
  [{"name": "last_timestamp", "meaning": "latest source time seen, start of next incremental", "where": "resync/client.py"}])

p("C07", "A dry run touches nothing",
  "A baseline or incremental synchronization requested as a dry run downloads no resource and creates, modifies or deletes no file, directory or stored client state, whatever it finds to do and whether or not deletion is enabled. It still names every resource it would have downloaded and every file it would have deleted, exactly those a real run from the same situation would have.",
  ["inputs", "configurations"],
  "all sources, destinations and options",
  "Tests call two helpers with dryrun set on one file; the whole-run claim is never exercised.",
  ["client.py"],
  [("dryrun branches in update_resource/delete_resource", "resync/client.py"), ("state recording", "resync/client.py")],
  ["file-system audit events", "tree snapshot including the working directory", "request log", "log records"])

p("C08", "Local files are deleted only when asked and only for cause",
  "Without deletion enabled no synchronization ever deletes a local file. With it enabled, a baseline synchronization deletes only files under the mapped destinations that the resource list it read omits, and an incremental one only files whose last applicable change is a deletion. If the source's list cannot be found, read or fully parsed (including any part of a split list), is a document of another type, or a resource list is empty, the synchronization ends with an error without downloading, deleting or changing anything at the destination.",
  ["inputs", "fault_sequences", "configurations"],
  "all source lists including missing, damaged, empty, partial and mistyped ones",
  "The abort paths are not run end to end by any test.",
  ["client.py", "list_base_with_index.py", "sitemap.py"],
  [("read_resource_list/find_resource_list", "resync/client.py"), ("empty list abort", "resync/client.py"), ("capability check", "resync/sitemap.py")],
  ["file-system events", "tree snapshot", "outcome of the run"])

p("C09", "Download failures are bounded, reported and recoverable",
  "A resource download that times out is attempted again until it succeeds or the configured number of tries is used up, and a download that fails in any other way (error status, refused or broken connection, malformed or cut-short response) is not attempted again. A download that has finally failed ends the synchronization with an error naming the resource or, if failures are to be ignored, is reported with a warning while every other listed change is still carried out, and it is never counted as created or updated, nor is an error page stored in its place. Once the faults stop, the next baseline synchronization converges as if they had not happened.",
  ["fault_sequences", "inputs", "configurations"],
  "every sequence of per-request faults over every download of baseline and incremental runs, both failure policies",
  "Tests cover one timeout sequence and one 404 on the helper method; sequences over whole runs are never tried.",
  ["client.py", "url_or_file_open.py"],
  [("retry loop in update_resource", "resync/client.py"), ("ignore_failures", "resync/client.py")],
  ["per-attempt request log / injected fault log", "log records", "status line", "destination tree after recovery"])

p("C10", "A disk scan lists exactly the files on disk",
  "A resource list built from disk contains exactly one entry for every regular file reachable below the scanned paths (or named by them) that no exclude pattern matches on its name or on the name of a directory below the scanned path, and nothing else; symbolic links met on the way are neither listed nor followed, and pipes and other special files are not listed. Each entry carries the URI given by the mapping, the file's modification time, its size unless suppressed, the requested digests and, if asked for, its path, and the list the times at which the scan began and ended. A file or directory that has to be read and cannot be, or that vanishes meanwhile, is skipped and never makes the scan fail.",
  ["inputs", "configurations"],
  "all directory trees, mappings, path selections, exclude patterns, digest and option combinations",
  "Tests scan two fixed small directories.",
  ["resource_list_builder.py", "mapper.py", "hashes.py"],
  [("from_disk/from_disk_add_path/add_file", "resync/resource_list_builder.py")],
  ["returned resource list versus an independent walk of the same tree"])

p("C11", "Digests are right and are used to detect differences",
  "The md5, sha-1 and sha-256 values computed for a file are the hexadecimal digests of exactly its bytes, for every file size and every combination of requested types. When the user requests digests, files that differ from the source only in content are found out of sync in audit and baseline whenever the source lists a digest of a requested type, digests of types not listed by the source cause no differences or failures, and a downloaded file whose digest or length is not the listed one is reported. A digest string in a document is split into its typed values and written back without change, and unsupported or repeated types are reported without disturbing the others.",
  ["inputs", "configurations"],
  "all file sizes, contents, digest combinations on both sides",
  "Tests hash three tiny files, below one read block, and never use digests in a synchronization.",
  ["hashes.py", "resource.py", "client.py", "resource_list_builder.py"],
  [("compute_for_file", "resync/hashes.py"), ("hash property", "resync/resource.py"), ("prune_hashes/check_hashes", "resync/client.py")],
  ["digest values versus hashlib on whole contents", "status lines and log records of runs"])

p("C12", "Documents survive a write/read round trip",
  "Every kind of ResourceSync document the library can write (resource, change, dump and capability lists, manifests, archives, source descriptions and their indexes) is well-formed XML in the sitemap namespaces that, read back, yields the same document type, top-level metadata and links, and the same entries in the same order with equal URI, last-modification time, change type, change datetime, length, digests, media type, path, capability, at/completed/from/until times and links. Times are preserved to the microsecond, top-level times set as numbers or to the current time are written as those datetimes, and text may contain any character XML allows (but for carriage returns in URIs). This holds with and without pretty printing, through strings and files; under specification version 1.0 no change datetime is written and a missing last-modification time takes its value.",
  ["inputs", "configurations"],
  "all documents, attribute combinations, characters, both specification versions",
  "Tests compare a few fixed documents.",
  ["sitemap.py", "resource.py", "list_base.py", "list_base_with_index.py", "resource_container.py"],
  [("resources_as_xml/parse_xml", "resync/sitemap.py"), ("write/parse/read", "resync/list_base.py")],
  ["document text checked by an independent XML parser", "objects read back"])

p("C13", "Malformed documents are rejected, unknown content ignored",
  "Reading a document that has the wrong root element, a wrong or (other than for a resource list) missing document type, an entry with no, several or empty locations, several last-modification times or several metadata elements, repeated or misplaced top-level metadata or links, an unknown change type, a non-integer length, a link without href or rel or with a bad priority or length, or an entry with an invalid date fails with a parse error and is never partly accepted as a good document. Elements and attributes that are not part of the format are ignored wherever they appear, as are unknown capability names and comments and the choice of namespace prefixes, and the rest of the document is read as if they were not there.",
  ["inputs"],
  "all structural mutations of valid documents of every type",
  "Tests try about ten fixed malformed documents.",
  ["sitemap.py"],
  [("parse_xml, resource_from_etree, md_from_etree, ln_from_etree", "resync/sitemap.py")],
  ["outcome of reading mutated documents versus the mutation's known class"])

p("C14", "Hostile XML cannot expand entities or reach other resources",
  "Reading a document, wherever it comes from and by every way the library and its programs offer, never expands entities declared in that document, never reads a local file or makes a network request because of a DTD, entity or other reference inside the XML prologue, and refuses documents that declare entities (other than the five of XML itself). The refusal is an ordinary error, takes bounded time and memory, and nothing from a refused document is used.",
  ["inputs"],
  "all documents with internal, external, parameter and nested entity declarations in every reading path",
  "Tests contain no document with a DTD.",
  ["sitemap.py", "client.py", "list_base.py", "explorer.py"],
  [("defusedxml parse", "resync/sitemap.py")],
  ["audit events for file opens and connections", "request log of a canary server", "bounded memory and output"])

p("C15", "Lists split over several files are complete and reassemble",
  "Writing a list with more entries than the per-file limit produces files of which each holds at most the limit, whose entries concatenated are exactly the list's entries in order with none lost or repeated, and an index at the requested name listing exactly those files under the URIs the mapping gives them; at or below the limit a single file is written. Reading the index back, locally or over the web and for any list type that can be split, yields the original entries. Every part links to its index and carries the list's metadata, the index entries carry the md5 of their files, and if splitting is disabled writing or reading a split list fails with an error instead of producing or returning part of it.",
  ["inputs", "configurations"],
  "all list lengths around multiples of all limits including 1 and the default 50000, all list types, iterators and containers",
  "Tests write one three-part list with one limit.",
  ["list_base_with_index.py", "resource_list.py", "change_list.py", "archives.py"],
  [("write/get_resources_chunk", "resync/list_base_with_index.py"), ("read/read_component_sitemap", "resync/list_base_with_index.py"), ("as_xml_index/as_xml_part", "resync/list_base_with_index.py")],
  ["files on disk parsed by an independent parser", "list read back"])

p("C16", "Comparing two lists partitions them exactly",
  "Comparing a destination list with a source list puts every URI that occurs in either into exactly one of same, updated, created and deleted: deleted if only the destination has it, created if only the source has it, and otherwise same or updated according to whether the two descriptions are equal, with the source's description reported for updates and creations. Two descriptions of a URI are equal unless they have times differing by at least the tolerance (one second by default, none if zero is asked for), or only one has a time, or they differ in a length or a digest of a type that both have. Neither list is altered, and the result does not depend on how entries were added, on the storage order, or on comparing a list with itself.",
  ["inputs"],
  "all pairs of lists with all combinations of present and absent metadata",
  "Tests compare lists of three entries.",
  ["resource_list.py", "resource.py"],
  [("compare/sorted_iter", "resync/resource_list.py"), ("__eq__/equal", "resync/resource.py")],
  ["returned lists versus a set-based model"])

p("C17", "Pruning a change list keeps exactly what matters",
  "Dropping changes before a time keeps, in order, exactly those at or after it, judged by change datetime under specification version 1.1 and by last-modification time under 1.0, and refuses lists with entries lacking that time. Dropping superseded changes keeps, in order, exactly the last entry for each URI, except that a URI whose first entry is a creation and last a deletion disappears. Both report the number of entries removed, so that kept plus removed always equals the original number, and repeating either removes nothing more.",
  ["inputs", "histories"],
  "all change sequences over few URIs with equal and distinct times",
  "Tests use five hand-made sequences.",
  ["change_list.py", "resource_container.py"],
  [("prune_updates_before", "resync/change_list.py"), ("prune_dupes", "resync/resource_container.py")],
  ["list contents and return values versus a model"])

p("C18", "Content dumps hold every resource once, within the limits",
  "Writing a dump produces packages that together contain every listed resource exactly once, each package taking up the list where the previous one ended, and each being a valid ZIP whose files are, besides its manifest, exactly those its manifest names, with the bytes on disk and relative names that stay inside the package; the separately written manifest is the same as the one inside. A package is closed as soon as its files reach the size or number limit, so that no limit is already reached before the last file of a package. A file that is larger than the limit, is missing, or is not of the listed length makes the whole dump fail before any package is written.",
  ["inputs", "configurations"],
  "all file sizes relative to the limits, all directory layouts, limits and mappings",
  "Tests write one package from two files and one partition.",
  ["dump.py", "resource_dump_manifest.py"],
  [("write/partition_dumps/write_zip/check_files/archive_path", "resync/dump.py")],
  ["ZIP files read with an independent reader", "manifests parsed independently"])

p("C19", "URI/path mapping is literal, ordered and invertible",
  "A mapping translates exactly the URIs that equal its base or extend it by a slash, by literal text replacement, with the first matching mapping in the order given deciding and every other URI refused; a path is translated back by the same rule, so that translating there and back by the same mapping gives the original (a bare base gains a slash). Trailing slashes of bases make no difference, characters special in patterns have no special meaning, a URI whose remainder contains a parent-directory segment is refused, and two mappings with the same URI base or path are refused when given. A web source given alone is mapped to one directory in the working directory whose name has only letters, digits, dots, hyphens and underscores and neither begins nor ends with a dot or underscore, a local one to itself. A mapping from a local source is unsafe if and only if one of the two directories is the other or contains it, and synchronization then refuses to start.",
  ["inputs", "configurations"],
  "all bases, paths, URIs and orders of mappings",
  "Tests use plain names without special characters.",
  ["mapper.py", "client.py"],
  [("src_to_dst/dst_to_src/parse/unsafe", "resync/mapper.py")],
  ["returned translations versus a string model"])

p("C20", "W3C datetimes are read and written exactly",
  "Writing a time and reading it back gives the same instant to within a microsecond, for every time from 1970 to 2200, and what is written is a valid W3C datetime in UTC. Reading accepts every form of the format (year, month, day, minutes, seconds, fractions, zone) with its standard meaning, independently of the local time zone, and refuses everything else, in particular out-of-range fields, missing zones and surrounding text.",
  ["inputs", "configurations"],
  "all instants, all W3C forms and near misses, all local time zones",
  "Tests list about thirty strings in one time zone.",
  ["w3c_datetime.py", "resource.py"],
  [("datetime_to_str/str_to_datetime", "resync/w3c_datetime.py")],
  ["values versus an independent calendar computation"])

p("C21", "Stored synchronization state is durable and per source",
  "The time stored for a source is the time returned for it, exactly, until it is changed or removed, whatever is stored for, changed or removed from other sources with distinguishable names, and across program runs. A source nothing was stored for has no time. If the program dies, or writing fails, at any point while storing, what is found afterwards for that source is the old time or the new one, the times of other sources are not affected, and storing works again.",
  ["histories", "crash_points", "inputs"],
  "all sequences of store, remove and read over several sources; a crash after any prefix of the file-system effects of a store",
  "Tests store one value; no crash is simulated.",
  ["client_state.py", "client.py"],
  [("set_state/get_state", "resync/client_state.py")],
  ["returned values versus a dictionary model", "state found after every crash point"],
  [{"name": "status file", "meaning": "start time per source", "where": "resync/client_state.py"}])

p("C22", "Every web request carries the configured settings",
  "Every web request the programs make, whether for a document, for a part of a split list, for a resource, or repeated after a timeout, carries a User-Agent naming resync and its version and, if the user configured an access token, that token as bearer authorization, and none carries one otherwise. If a delay is configured, each web request after the first is made at least that long after the previous one. A request timeout applies to every resource download.",
  ["configurations", "inputs", "histories"],
  "all program runs and all requests in them",
  "Tests check one request with each setting.",
  ["url_or_file_open.py", "client_utils.py", "client.py", "resync-sync"],
  [("url_or_file_open", "resync/url_or_file_open.py"), ("process_shared_misc_options", "resync/client_utils.py")],
  ["complete request log with headers and monotonic receive times at the server"])

p("C23", "The source's resource list is found in the documented order",
  "A synchronization uses the explicitly named resource list or else the explicitly named capability list and fails if that does not work. Otherwise it tries, in this order and stopping at the first that works, the source description under the base URI, the one at the host root, and then the resource list names resourcelist.xml and sitemap.xml under the base and sitemap.xml at the host root, following relative references in source descriptions and capability lists. A description that is found but has no or several capability lists, or a capability list without a resource list, ends the search with an error rather than a guess.",
  ["inputs", "configurations", "fault_sequences"],
  "all combinations of present, absent, broken and misleading documents at the candidate locations, web and local",
  "Tests cover a few of the hundreds of combinations, all with relative local paths.",
  ["client.py", "source_description.py", "capability_list.py"],
  [("find_resource_list and helpers", "resync/client.py")],
  ["sequence of requests at the server", "which list was used"])

p("C24", "Capability lists and source descriptions keep canonical form",
  "A capability list returns and writes its entries in the order of capabilities fixed by the specification, entries of the same capability by URI and unknown capabilities last, independently of the order of addition, and a source description lists its capability lists by URI. Both refuse a second entry with the same URI unless replacement is asked for, report whether a capability is present and its entry, and survive being written and read back with types, links and entries intact.",
  ["inputs", "histories"],
  "all orders and repetitions of additions of known and unknown capabilities",
  "Tests add at most four capabilities in two orders.",
  ["capability_list.py", "source_description.py", "resource_set.py"],
  [("CapabilitySet.__iter__", "resync/capability_list.py"), ("ResourceSet", "resync/resource_set.py")],
  ["iteration order and documents versus a sort model"])

p("C25", "A generated change list turns the old state into the new",
  "The change list computed between a reference resource list and the files on disk, or between two lists, contains exactly one entry for each URI that was added, removed or changed, with the right change type and the new description (the old one for removals) and none for any other URI, so that applying it to the old state gives the new one. It is written as one well-formed document on standard output or under the requested name with the requested links and limits, and asking for an empty change list yields one without entries.",
  ["inputs", "configurations"],
  "all pairs of old and new states, both ways of giving the new one, all output options",
  "Tests generate from one fixed pair and only look at fragments of the output.",
  ["client.py", "change_list.py", "resync-build"],
  [("write_change_list", "resync/client.py"), ("add_changed_resources", "resync/change_list.py")],
  ["standard output and files parsed by an independent parser versus a diff model"])

p("C26", "The explorer offers and checks exactly what the source says",
  "The explorer offers as numbered choices the first entries of a document in document order (all of them up to 21, otherwise the first 20 with the number not shown stated) and as lettered choices its describedby, up and index links, with relative references resolved against the document, and following a choice reads exactly that URI, going back returns to the previous document, and a document or entry of an unexpected type is flagged while an expected one is not. For a resource it makes a HEAD request only (what Python's library does to follow a redirect apart) and says for size, date and media type whether the answer agrees with what the document announced. No document, missing resource or failing server ends it with anything but a message.",
  ["inputs", "histories"],
  "all documents and all sequences of user choices",
  "Tests use two fixed documents and mock the HEAD response.",
  ["explorer.py", "resync-explorer"],
  [("explore/explore_uri/explore_show_summary/explore_show_head", "resync/explorer.py")],
  ["printed transcript and the server's request sequence versus a navigation model"])

p("C27", "Documents built on the command line say what was asked",
  "A resource list, capability list, source description or dump built from the command line describes exactly the files, capabilities or capability lists given by the arguments, with every requested link with all its attributes (in a dump: in every manifest) plus the requested describedby and up links in the documents they apply to, on standard output or at the requested name. Malformed link, capability or mapping arguments end the program with an error message that names them and without output. Excluded files are left out, requested digest types are present on every entry, and the entry limit of a list (not of a dump) is respected.",
  ["inputs", "configurations"],
  "all combinations of build options, links, capabilities, mappings and trees",
  "Tests run each build mode once with fixed arguments.",
  ["resync-build", "client.py", "client_utils.py"],
  [("main", "resync-build"), ("write_resource_list/write_capability_list/write_source_description", "resync/client.py"), ("parse_links/parse_capabilities", "resync/client_utils.py")],
  ["program output parsed by an independent parser", "exit and messages"])

p("C28", "Resource collections keep unique keys, order and iterators apart",
  "A resource list or set holds at most one entry per URI, refuses a second one leaving the first in place unless replacement is asked for, and iterates in URI order (or in order of addition if so created), while change lists and other plain lists keep every entry in order of addition. Lengths, URI lists, lookups and iteration always agree with the entries added and not removed since. Any number of iterations over the same collection may be in progress at once, each yielding every entry once.",
  ["histories", "inputs", "schedules"],
  "all sequences of additions, replacements, lookups and interleaved iterations",
  "Tests iterate one list at a time over three entries.",
  ["resource_list.py", "resource_set.py", "resource_container.py", "change_list.py", "capability_list.py"],
  [("ResourceListDict/ResourceListOrdered", "resync/resource_list.py"), ("ResourceSet", "resync/resource_set.py")],
  ["results of operation histories versus a sequential model"])

p("C29", "Reports and event log match what actually happened",
  "The status line shown first gives the numbers planned, and the numbers of created, updated and deleted resources in a synchronization's final status line equal the files actually created, updated and deleted; the status word says in sync or no changes, synced or applied, or partly so accordingly, where partly means that fewer files were deleted than planned and the number of planned deletions is shown instead. The detailed event log contains exactly one event with the right change type and URI for each resource actually downloaded and each file actually deleted, and none for failed, skipped or dry-run actions, and its records carry the time in UTC.",
  ["inputs", "fault_sequences", "configurations"],
  "all baseline and incremental runs with and without deletion, failures, dry run",
  "Tests check the status line formatting helper with fixed numbers only.",
  ["client.py"],
  [("log_status", "resync/client.py"), ("log_event", "resync/client.py"), ("counters in baseline_or_audit/incremental", "resync/client.py")],
  ["status lines and event records versus the file-system and request observations"])

p("C30", "Descriptions keep what they are given and copies are independent",
  "A resource description returns for every attribute, time text, digest string and link exactly what was last given for it when it was created, as a value or as a text, or set later, and nothing for what was never given. A copy has all values and links of its original but for those given explicitly, and afterwards no change of one, or of any other description, shows in the other. Setting a link for a relation replaces the first link with that relation in place while adding one keeps all. A missing URI, an unknown change type and a text that is no W3C datetime are refused and leave the description as it was. Metadata times and links at the top of documents behave alike, with numbers and the current time stored as datetimes.",
  ["histories", "inputs"],
  "all sequences of creations, copies and settings of attributes, times, digests and links over several descriptions and documents",
  "Tests set single attributes on single objects; that objects do not influence each other ranges over all histories.",
  ["resource.py", "resource_container.py", "w3c_datetime.py"],
  [("Resource", "resync/resource.py"), ("ResourceContainer", "resync/resource_container.py")],
  ["every attribute of every object after every operation versus a model"])

p("C31", "Parsing a document reports its type and entries and nothing else",
  "The parse mode of the synchronization program reads exactly the one document at the given location, or at the resource list location that the mapping gives, and prints its type (or that it is unknown) and its number of entries. If asked to be verbose it also prints the entries in document order, numbered from zero, with URI, time, length, digest and change: all of them up to the limit given (100 if none is), otherwise that many with a statement that they are the first ones. A document that is missing, broken or malformed ends it with an error and without a summary. No file is touched and nothing that the document mentions is requested.",
  ["inputs", "configurations"],
  "all documents, good or bad, locations and options",
  "Tests parse three fixed local documents.",
  ["client.py", "resync-sync", "sitemap.py"],
  [("parse_document", "resync/client.py"), ("__str__", "resync/resource.py")],
  ["program output", "request log", "file-system effects"])

p("C32", "Misuse is refused first and all forms of an option agree",
  "A program started with no mode or with more than one, without the mapping the mode needs, with malformed or duplicate mappings, with an option it does not know, an option without its value or with a value not of its kind (a number of tries, timeout or entry limit that is none, a negative delay, an unknown specification version, an incremental start time that is no W3C datetime, for the build program an exclude pattern that is no regular expression or a malformed list of capabilities), to write changes without a reference or the statement that it is empty, or the explorer without a location ends with an error and a message before making a web request, changing a file or printing a document. All spellings of an option (short, long and alternative names, value attached or separate, --checksum and --hash md5, a mapping as one or two arguments) in any order relative to other options have the same effect on requests, files, stored state, reports and documents.",
  ["inputs", "configurations"],
  "all wrong command lines, and all pairs of equivalent command lines, in situations where the programs would have something to do",
  "Tests call the programs with a few fixed correct argument lists.",
  ["resync-sync", "resync-build", "resync-explorer", "client_utils.py"],
  [("main", "resync-sync"), ("main", "resync-build"), ("main", "resync-explorer"), ("add_shared_misc_options/process_shared_misc_options/count_true_args/parse_capabilities", "resync/client_utils.py"), ("Mapper.parse", "resync/mapper.py")],
  ["exit status and messages", "request log", "file-tree snapshots and documents of paired runs"])

p("C33", "Uses of the library in one process do not influence each other",
  "What the library's clients, parsers, lists, disk scans, dumps, mappings, authority and digest computations return, write, request and report does not depend on what was done before in the same process, successfully or not, by the same or other objects, nor on what other threads do with other objects at the same time, the connection settings token and delay, which are global by design, excepted. In particular one client can be used for any number of synchronizations and audits and acts each time on the files, documents and settings of that time as a new client would, one disk scanner or parser can be used repeatedly, and a list can be written repeatedly, each time as the same document. Afterwards the process has the working directory, environment, umask, locale, default time-out and number of open files and threads that it had before.",
  ["histories", "schedules", "fault_sequences"],
  "all sequences and parallel executions of uses of the library, with failures among them",
  "Tests use new objects for every step; that nothing is carried over ranges over all histories and schedules.",
  ["client.py", "sitemap.py", "list_base.py", "list_base_with_index.py", "resource_list_builder.py", "dump.py", "hashes.py", "mapper.py", "url_authority.py", "url_or_file_open.py"],
  [("baseline_or_audit/incremental/prune_hashes", "resync/client.py"), ("from_disk", "resync/resource_list_builder.py"), ("parse_xml", "resync/sitemap.py"), ("write/as_xml", "resync/list_base_with_index.py")],
  ["results, files, requests and messages of every use, alone in a new process and among others", "process state before and after"],
  state=["module and class attributes", "instance attributes kept between calls", "process-wide settings and descriptors"])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
