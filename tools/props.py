"""single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, level="proof", note="", state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a,
                  _level=level, _note=note))


SRV = "server/devpi_server/"

prop("A01", "Login tokens authenticate exactly the user they were issued for",
     "A login token is accepted only if it carries this server's signature and is not older than the advertised lifetime, "
     "and then authenticates exactly the user named in it, with exactly the groups recorded when it was issued; if the token was issued for "
     "an account of the server itself, that account must still exist. A token is issued only after the presented user name and "
     "password were validated, and an expired or foreign token is never accepted.",
     ["inputs", "histories"], "every user name, every credential string, every signed payload (any type, any length, any field values), expired or not, account present or deleted",
     "tests use a handful of user names and one token shape; they cannot range over all payloads, ages and user/token combinations",
     [SRV + "auth.py"],
     [("token check", "Auth._get_auth_status"), ("token issue", "Auth.new_proxy_auth")])

prop("A02", "Credentials are decided by the right authority",
     "The root account is authenticated only by the server's own password check, never by a plugin; for every other user a plugin verdict is final, "
     "any rejecting plugin (or plugin failure) prevents authentication, and the granted groups are exactly those named by accepting plugins. "
     "Without a plugin verdict a user is authenticated exactly if the account exists and the presented password matches the stored hash, and the user name and password checked are "
     "exactly those in the request's credentials (split at the first colon).",
     ["inputs", "configurations"], "every user name, password, credential header value, stored hash, and every number and combination of plugin answers",
     "tests install one or two plugins with fixed answers; the rule must hold for any number of plugins and any answers",
     [SRV + "auth.py", SRV + "auth_basic.py", SRV + "auth_devpi.py", SRV + "view_auth.py", SRV + "model.py"],
     [("validation order", "Auth._validate"), ("legacy plugins", "Auth._legacy_auth"), ("password check", "User.validate"),
      ("password hashes", "DevpiHandler.verify, verify_and_update_password_hash"),
      ("credential extraction", "auth_basic/auth_devpi.devpiserver_get_credentials"),
      ("identity", "view_auth.devpiserver_get_identity")])

prop("A03", "Index permissions follow the index's ACL and ownership",
     "On an index, the right to upload, read packages, upload test results, delete entries, delete or modify the index is granted to exactly those users and groups "
     "the index's access lists name (or, where no list applies, the owner and root, respectively the principals of the server's modification restriction), and a denial by a plugin takes precedence over every grant. "
     "Users may be modified or deleted, and indexes created, only by themselves and root, or only by the restricted principals if such a restriction is configured; without a restriction nobody is granted deletion of root.",
     ["inputs", "configurations"], "every user, group membership, index configuration, restriction list and plugin denial set",
     "the permission matrix (principal x permission x ACL content x restriction) is far larger than the sampled cases in the tests",
     [SRV + "model.py", SRV + "view_auth.py"],
     [("stage acl", "BaseStage.__acl__"), ("principals", "BaseStageCustomizer.get_principals_for_*"), ("root acl", "RootFactory.__acl__"),
      ("decision", "DevpiSecurityPolicy.permits")])

prop("A04", "No operation changes data without the permission for it",
     "Every web request that creates, changes or deletes users, indexes, projects, releases, files or test results is executed only if the requester holds the permission for that very operation on that very target; "
     "a push additionally requires package-read permission on the source and upload permission on the target index, and release files are handed out only with package-read permission on their index.",
     ["inputs", "configurations"], "every route and request method, every requester, every source and target index",
     "tests probe selected routes with selected users; a single forgotten or wrong permission on one route/method or one internal path is enough",
     [SRV + "views.py"],
     [("view permissions", "view_config(permission=...) on PyPIView and StatusView"), ("push", "PyPIView.pushrelease"),
      ("upload", "PyPIView.submit"), ("file serving", "PyPIView._pkgserv")])

prop("A05", "Passwords and upstream credentials never leave the server's store",
     "User information returned without an explicit credentials request contains only the public fields, never a password, password hash or salt; a stored account never contains the plain password. "
     "Printing or logging a URL object never shows its user name or password, and the links and files recorded from a mirror (and the package pages built from them) never contain the upstream credentials.",
     ["inputs"], "every stored user record (also with unknown legacy keys), every modification request, every URL",
     "tests check single users and URLs; leakage must be impossible for every record content and URL form",
     [SRV + "model.py", "common/devpi_common/url.py", SRV + "mirror.py"],
     [("user view", "User.get"), ("user update", "User._modify, User._setpassword"), ("url repr", "URL.__repr__"), ("mirror url", "MirrorStage.mirror_url_without_auth")])

prop("S01", "Reads at a serial see exactly the state committed up to that serial",
     "Reading a key at serial N returns the value written by the newest commit at or before N, or 'deleted/absent' if that commit deleted it or none exists; later commits, cached changelogs and the order of lookups never influence the answer.",
     ["inputs", "histories"], "every history of commits, every key, every serial, every state of the changelog cache",
     "tests replay a few fixed histories; the property quantifies over all back-reference chains and cache states",
     [SRV + "keyfs_sqlite.py", SRV + "keyfs.py"],
     [("lookup", "BaseConnection.get_relpath_at, _get_relpath_at"), ("transaction reads", "Transaction.get_last_serial_and_value_at, iter_serial_and_value_backwards")])

prop("S02", "Transactions are isolated, atomic and gap-free",
     "Inside a transaction every read sees the transaction's own latest writes and deletes and otherwise the snapshot it started from; nothing is visible outside before commit. A commit writes one new serial, exactly one above the previous, "
     "containing exactly the keys that were changed (or deleted) with their final value and the serial of their previous change; an exception or rollback writes nothing, and every transaction end releases its connection.",
     ["inputs", "histories"], "every sequence of gets, sets and deletes over any keys, starting from any committed state, ended by commit, rollback or an exception",
     "tests exercise short fixed sequences; invariants over all operation sequences and values cannot be sampled",
     [SRV + "keyfs.py", SRV + "keyfs_types.py", SRV + "keyfs_sqlite.py"],
     [("transaction", "Transaction.get/set/delete/exists/is_dirty"), ("commit", "Transaction.commit/rollback/_close"),
      ("writer", "Writer.record_set/__exit__"), ("typed keys", "TypedKey.set/update")])

prop("S03", "A crash never loses a committed file nor leaves an uncommitted one",
     "For every point at which the process can stop while a commit moves its files into place, restarting the server yields exactly the files of the committed serial: committed files are present with their content, "
     "files deleted by the commit are gone, and files of a commit that was not recorded are removed; running recovery again changes nothing.",
     ["crash_points", "inputs"], "every set of created and deleted files and every prefix of the individual rename/remove steps",
     "tests run two or three hand written crash scenarios; the property ranges over all prefixes of all file operation lists",
     [SRV + "keyfs_sqlite_fs.py", SRV + "filestore_fs.py"],
     [("rename journal", "make_rel_renames, LazyChangesFormatter"), ("commit", "commit_renames"), ("recovery", "check_pending_renames"), ("temp names", "tmpsuffix_for_path, rename/remove helpers")])

prop("S04", "Stored and transmitted values round-trip exactly",
     "Every value built from None, booleans, integers, floats, complex numbers, text, bytes, lists, tuples, sets, frozensets and dictionaries is read back equal and of the same types after being written to the store or the replication stream, reading takes exactly the bytes written, the announced length is exact, "
     "unsupported values are rejected when writing, and truncated data or data with unknown type codes is never read as a value.",
     ["inputs"], "every nested value of the supported types and every byte string offered for reading",
     "round trip over all nested values is an induction, tests check examples",
     [SRV + "fileutil.py"],
     [("encoder", "_Serializer / dumps / dumplen"), ("decoder", "Unserializer / loads")])

prop("S05", "Values handed to callers can never change stored state behind its back",
     "A value obtained for reading cannot be modified through any operation it offers, at any nesting depth, and a value obtained for writing shares no mutable part with the committed value or with any other reader: changing it in place does not change what is read before it is written back.",
     ["inputs"], "every nested container value and every sequence of operations on the views",
     "tests try a few mutators on a few shapes; the property is a closure over all operations and nesting depths",
     [SRV + "readonly.py", SRV + "keyfs.py"],
     [("read-only views", "ensure_deeply_readonly and the view classes"), ("deep copies", "get_mutable_deepcopy"), ("transaction", "Transaction.get")])

prop("S06", "Change events are delivered exactly once, in commit order",
     "Subscribers are called for every committed serial in increasing order without gaps, for every changed key they subscribed to, and the persisted event position moves past a serial only after its subscribers have run (or failed with a logged error); "
     "after a restart processing resumes at the first unprocessed serial.",
     ["histories", "crash_points", "fault_sequences"], "every sequence of commits, every interruption, failing subscribers and missing files",
     "tests process a few serials; ordering and no-gap must hold at every position and for every failure",
     [SRV + "keyfs.py"],
     [("event loop", "TxNotificationThread.tick, _execute_hooks"), ("position", "write_event_serial / read_event_serial, read_int_from_file/write_int_to_file")])

prop("S07", "A replica applies the primary's changes exactly once and in order",
     "A replica accepts a change set only for exactly the serial after its current one and applies all its keys with exactly the transmitted values; change sets are processed in the order of the primary's serials, and data of a different primary is refused. "
     "Waiting for a serial returns success only when that serial has been committed.",
     ["histories", "inputs", "fault_sequences"], "every stream of change sets, every local serial, every response header combination",
     "tests drive a few consecutive serials; gaps, repeats, reorderings and foreign primaries form an unbounded space",
     [SRV + "keyfs.py", SRV + "replica.py"],
     [("import", "KeyFS.import_changes"), ("fetch loop", "ReplicaThread.fetch/fetch_single/fetch_multi/handler_*"), ("wait", "KeyFS.wait_tx_serial")])

prop("S08", "Distinct objects are stored under distinct, confined keys",
     "Building the storage path of a key from its parameters is injective and refuses parameters that contain a path separator, and parsing the path gives back exactly the (non-empty) parameters; keys of different kinds never share a path, so no user, index, project or file name can address another object's data.",
     ["inputs"], "every key pattern of the schema and every parameter value",
     "the tests use well-behaved names; injectivity is a statement about all pairs of parameters",
     [SRV + "keyfs_types.py", SRV + "model.py"],
     [("path building", "PTypedKey.__call__"), ("path parsing", "PTypedKey.extract_params"), ("schema", "model.add_keys")])

prop("I01", "A private project shadows the same project on mirrors",
     "When an index inherits from a mirror, releases of a project that also exists on a non-mirror index earlier in the inheritance are not taken from the mirror unless the project is whitelisted; projects unknown to private indexes pass through. "
     "The whitelist at a point of the inheritance is the intersection or union (according to the configured mode) of the whitelists of the non-mirror indexes visited up to there, and a project is whitelisted as soon as one of these combinations contains its name or the literal '*', which the combination treats like any other entry.",
     ["inputs", "configurations"], "every inheritance chain, every project, every whitelist and combination mode",
     "dependency-confusion protection must hold for every chain and whitelist; tests cover a few chains of length two or three",
     [SRV + "model.py"],
     [("filter", "BaseStage.op_sro_check_mirror_whitelist"), ("whitelist info", "BaseStage.get_mirror_whitelist_info"), ("mode", "get_whitelist_inheritance")])

prop("I02", "Index inheritance visits every reachable index once, nearest first",
     "The resolution order starts with the index itself, contains every existing index reachable through the configured bases exactly once, and places mirrors after all other indexes; it is finite even for cyclic bases. "
     "Merged version lists and links contain exactly the contributions of the visited indexes, and where several offer the same file the first one in the order wins.",
     ["inputs", "configurations"], "every graph of indexes and bases, including cycles, missing bases and diamonds",
     "tests use small hand written graphs",
     [SRV + "model.py"],
     [("resolution order", "BaseStage.sro"), ("merged links", "BaseStage.get_simplelinks"), ("merged versions", "BaseStage.list_versions, get_versiondata, list_projects, has_project")])

prop("I03", "Releases on a non-volatile index are immutable",
     "On an index that is not volatile, an existing release file or documentation archive is never replaced by different content and never deleted, and its project, version or the index itself is never deleted, unless deletion is explicitly forced where the server allows forcing; re-uploading identical content is accepted without change. "
     "A file name taken by one version of a project can not be uploaded again for another version with different content. On a volatile index uploads replace the previous file of the same name of that version and nothing else.",
     ["inputs", "histories"], "every index configuration, every existing link set, every upload and delete request",
     "tests re-upload one file; immutability concerns every operation path and every existing content",
     [SRV + "model.py", SRV + "views.py"],
     [("overwrite protection", "LinkStore.create_linked_entry"), ("delete guards", "PyPIView.del_pkg, del_versiondata, project_delete, index_delete"), ("doczip", "PrivateStage.store_doczip")])

prop("I04", "Index configuration changes are all-or-nothing and keep invariants",
     "An index configuration change either stores a configuration in which every key is known to the index type, is normalised to its type, and only the requested keys differ from before, or is rejected and changes nothing; the index type and protected keys can never be changed, keys with default values can not be removed, and bases always refer to valid distinct indexes.",
     ["inputs", "configurations"], "every existing configuration and every modification request",
     "request space (keys x values x types x removal markers) is unbounded",
     [SRV + "model.py", SRV + "mirror.py", SRV + "views.py"],
     [("update", "BaseStage._modify"), ("parsing", "BaseStage.get_indexconfig_from_kwargs"), ("normalisation", "normalize_indexconfig_value, ensure_boolean, ensure_list, ensure_acl_list, normalize_bases")])

prop("I05", "Uploads and deletions affect exactly the targeted items",
     "Deleting a file, version, project, index or user removes exactly that item and everything it contains and nothing else, and adding or removing a link keeps every other link of the project unchanged; the project's simple index afterwards lists exactly the remaining files.",
     ["inputs", "histories"], "every set of links, versions and projects and every target",
     "tests delete from indexes with one or two entries; the frame condition (nothing else changed) needs all others",
     [SRV + "model.py", SRV + "filestore.py"],
     [("link removal", "LinkStore.remove_links, get_links"), ("version/project removal", "PrivateStage.del_versiondata/del_project/del_entry"), ("simple index", "PrivateStage._regen_simplelinks"),
      ("index/user removal", "User.delete, RootModel.delete_stage/delete_user, PrivateStage.delete")])

prop("I06", "User and index names are unique, valid and fixed",
     "A user or index is created only under a name that is free and contains no characters that could be confused in URLs or paths; creation stores exactly the given attributes, an update changes only the attributes named in the request, unknown attributes are never stored (rejected on creation, ignored on update), and neither creation nor update takes the creation time or the set of indexes from the request.",
     ["inputs", "histories"], "every name and attribute set, every existing user list",
     "character set and attribute combinations are unbounded",
     [SRV + "model.py"],
     [("creation", "RootModel.create_user/create_stage"), ("names", "is_valid_name"), ("update", "User._modify, validate_config, get_cleaned_config")])

prop("F01", "Files that fail their checksum or length are never stored or served as good",
     "A file fetched from an upstream or primary is stored only if its size matches the announced length and its content matches every checksum recorded for it; on any mismatch the fetch fails and nothing is kept. Checksums computed for stored files are those of their content.",
     ["inputs", "fault_sequences"], "every content, chunking, announced length and set of expected checksums, including truncated and corrupted transfers",
     "tests corrupt one byte in one transfer; the property covers all chunkings, lengths and digest sets",
     [SRV + "filestore.py"],
     [("streaming", "FileStreamer"), ("verification", "iter_cache_remote_file, iter_remote_file_replica"), ("digests", "Digests, RunningHashes, get_hashes"), ("store", "FileEntry.file_set_content, validate")])

prop("F02", "A file's address is determined by its content hash and never shared",
     "Stored releases get an address derived from their checksum and name, the same checksum and name always give the same address, different checksums or names give different ones; looking up an upstream link returns the entry created for it, with the project, version and checksum given.",
     ["inputs"], "every checksum, file name, upstream URL and index",
     "collision freedom quantifies over all pairs of files",
     [SRV + "filestore.py"],
     [("placement", "FileStore.store, make_splitdir, key_from_link"), ("mapping", "FileStore.maplink")])

prop("M01", "A mirror serves only complete upstream data and never goes backwards",
     "When the upstream fails or answers with an older serial than known, a mirror keeps serving the last complete data it has (marked stale) and never stores the bad answer; an upstream 'not found' removes the project, and cached data is served without contacting the upstream only within the configured expiry time or while offline.",
     ["fault_sequences", "histories", "inputs"], "every upstream status, serial header, cache age, and offline setting",
     "tests stub a handful of responses; the decision table over status x serial x cache state x expiry is larger",
     [SRV + "mirror.py"],
     [("links", "MirrorStage.get_simplelinks_perstage, _fetch_releaselinks, _update_simplelinks"), ("expiry", "ProjectUpdateCache, ProjectNamesCache")])

prop("M02", "Links taken from an upstream index page are neither invented nor weakened",
     "Parsing an upstream project page (HTML or JSON) yields only links present on that page for that project, each with exactly the announced checksum, Python requirement and yanked state; where one release is listed twice the better-specified link is kept, and cached link data is rebuilt unchanged.",
     ["inputs"], "every upstream page content",
     "page contents are arbitrary",
     [SRV + "mirror.py", SRV + "model.py"],
     [("parsing", "IndexParser, parse_index_v1_json"), ("merge", "_mergelink_ifbetter"), ("link data", "join_links_data")])

prop("R01", "A replica never modifies its own copy of the state except by replication",
     "On a replica every request that could change data is forwarded to the primary or refused, and the local store is opened for writing only to apply the primary's changes; a forwarded request succeeds only after the local copy has caught up with the primary's answer, and requests to replication endpoints are accepted only from an authenticated replica.",
     ["inputs", "histories", "configurations"], "every request method, path and configuration",
     "tests sample requests; one unguarded path is enough to diverge",
     [SRV + "replica.py", SRV + "views.py", SRV + "keyfs.py"],
     [("proxy", "proxy_write_to_primary, proxy_request_to_primary"), ("transactions", "tween_keyfs_transaction"), ("replica identity", "devpiserver_get_identity, PrimaryChangelogRequest.verify_primary")])

prop("C01", "Archive contents are never unpacked outside the target directory",
     "Extracting an uploaded archive creates or overwrites files only inside the given target directory, whatever member names the archive contains, documentation is unpacked only below the directory of its own index, project and version, and a request for a documentation file is answered only with a file of that very documentation.",
     ["inputs"], "every archive member name (relative, absolute, dotted) in every supported format",
     "one malicious name suffices; tests contain only benign archives",
     ["common/devpi_common/archive.py", "web/devpi_web/doczip.py"],
     [("zip", "ZipArchive.extract"), ("tar", "TarArchive.extract"), ("target", "doczip.get_unpack_path, unpack_docs"), ("serving", "doczip.docs_file_exists, docs_file_path, docs_file_content")])

prop("C02", "Project names, versions and file names are interpreted consistently",
     "Project name normalisation is idempotent and identifies exactly the names that differ by case and runs of separators; the file name of a source distribution, wheel or other versioned archive splits into project, version and suffix, the latest version reported is never older than any other listed (pre-releases only when nothing else is allowed), and URL manipulation keeps host, path and fragment it was not asked to change.",
     ["inputs"], "every name, version set and URL",
     "normal forms and orderings quantify over all strings",
     ["common/devpi_common/validation.py", "common/devpi_common/metadata.py", "common/devpi_common/url.py", SRV + "model.py"],
     [("names", "validation.normalize_name"), ("file names", "metadata.splitbasename/splitext_archive"), ("versions", "metadata.get_latest_version, Version"), ("urls", "URL")])

prop("E01", "Export followed by import reproduces users, indexes and files",
     "A completed export contains every user, index, release, test result and documentation file with its metadata, and importing it recreates each with the same content and configuration; an import refuses files whose content does not match the recorded checksum, and never starts on a server that already has users or indexes.",
     ["inputs", "configurations"], "every server state",
     "tests export small states",
     [SRV + "importexport.py"],
     [("export", "Exporter, IndexDump"), ("import", "Importer"), ("guard", "has_users_or_stages")])

prop("L01", "The client sends credentials only to the server they belong to",
     "Login tokens and basic-auth credentials stored by the client are attached only to requests for the very server they were obtained from, removal and push commands operate only on the projects, versions and files the user named, and logging out removes the stored token.",
     ["inputs", "histories"], "every stored state, every URL, every requirement specification",
     "URL and state space unbounded",
     ["client/devpi/use.py", "client/devpi/list_remove.py", "client/devpi/push.py"],
     [("credentials", "PersistentCurrent.get_basic_auth/get_auth/set_auth/del_auth"), ("selection", "list_remove.*"), ("push", "push.*")])

NA = {}


def claimed():
    out = {}
    d = os.path.join(HERE, "contracts")
    for f in sorted(os.listdir(d)):
        if f.startswith("c_") and f.endswith(".py"):
            src = open(os.path.join(d, f)).read()
            for m in re.finditer(r"@contract\((\[[^\]]*\]|\"[A-Z]\d+\")[^\n]*", src):
                for p in re.findall(r"[A-Z]\d\d", m.group(1)):
                    mode = "proof"
                    out.setdefault(p, set()).add(mode)
    return out


def main():
    cl = claimed()
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks = []
    na = []
    for p in P:
        if p["id"] in cl and p["id"] not in NA:
            checks.append(dict(
                property=p["id"],
                quick_cmd="./check.sh check %s --tier quick" % p["id"],
                thorough_cmd="./check.sh check %s --tier thorough" % p["id"],
                technique="contract-based deductive verification (pyvc: contracts on the real functions, VCs from the executed source discharged by z3/cvc5)",
                level=p["_level"],
                level_note=p["_note"] or (
                    "Every obligation generated from the current source of the functions listed in the evidence is discharged for all inputs "
                    "admitted by the contracts' preconditions; trusted: the pyvc transform/engine, z3, and the assumed contracts on dependencies "
                    "listed in the evidence; functions listed as bounded stand-ins are checked within the stated bound only.")))
        else:
            na.append(dict(property=p["id"], reason=NA.get(p["id"], "contracts for this property are not built yet")))
    m = dict(version=1, setup_cmd="./check.sh selfcheck", checks=checks, not_applicable=na,
             notes="see DESIGN.md; known findings in known_findings.txt")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(P), "properties", len(checks), "claimed")


main()
