prop("C01", "Versions parse, print, compare and hash as one PEP 440 total order",
     "Every PEP 440 version text, in every spelling the standard permits, parses to the version with the standard's "
     "normal form, any other text is kept verbatim as a named or url version, and printing and re-parsing a version gives "
     "an equal version with an equal hash. Comparison (<, <=, ==, >=, >, sorting, max) is the PEP 440 order over epoch, "
     "zero-padded release, dev/pre/post suffixes and local label for standard versions, with urls before named versions and "
     "those before standard ones, as one strict total order in which equal versions hash equally. Bumping major/minor/patch yields the next such release without any suffix, and bumping a pre-release with its own or "
     "a later pre-release kind yields the next pre-release of the same release.",
     ["inputs"], "all pairs of versions over products of epochs, releases, pre/post/dev numbers and local labels; all "
     "spellings and all short texts over a version alphabet",
     "an order law quantifies over pairs and triples of versions and all spellings; the tests compare a handful of pairs",
     [SRC + "api/versions/version.py", SRC + "api/versions/version_parser.py"],
     [("version ordering, equality, hash, bump", SRC + "api/versions/version.py"),
      ("version parser", SRC + "api/versions/version_parser.py")],
     "bounded exhaustive enumeration of the real code against a reference order", "exploration",
     "All pairs and texts within the stated bounds are executed; trusts the `packaging` library as PEP 440 reference.",
     ["Version.parse", "comparison operators", "hash", "str", "bump"])

prop("C02", "A specifier text allows exactly the versions its clauses mean",
     "A comma separated specifier text allows a version exactly when all of its clauses do: ==/!= compare with zero "
     "padding and ignore a local label the clause does not name, </<=/>/>= follow the version order, ==X.* (and its "
     "negation !=X.*) means X <= v < the next version with that prefix, ~=X.Y means X.Y <= v < the next version of its "
     "prefix, === names one exact version text, @ names one exact url, and * or an empty text allows everything; ordering "
     "clauses never allow named or url versions (how they treat post releases and local versions is not claimed). Whitespace, "
     "parentheses, quotes and alternative version spellings do not change the meaning, and printing a satisfiable specifier "
     "and parsing it again gives one that allows the same versions.",
     ["inputs"], "all clauses (operator x bound), pairs and triples of clauses and writing variants, on all candidate versions "
     "of a universe", "the meaning is quantified over clause combinations and candidates; tests check single examples",
     [SRC + "api/versions/version_parser.py", SRC + "api/versions/version_specifiers.py"],
     [("specifier parser", SRC + "api/versions/version_parser.py"),
      ("allows_version / rendering", SRC + "api/versions/version_specifiers.py")],
     "bounded exhaustive enumeration of the real code against a reference semantics", "exploration",
     "Every clause combination within the bounds is evaluated on every candidate; oracle is written independently and "
     "cross-checked with `packaging` on final releases.", ["VersionSpecifier.parse", "allows_version", "str"])

prop("C03", "Specifier set operations are exactly set algebra and never change operands",
     "For all specifiers, intersection, union, difference and inverse allow exactly the public non-post standard versions that "
     "the corresponding set operation on what the operands allow gives, containment (allows_all) and overlap (allows_any) "
     "answer exactly the corresponding set questions, and no operation fails or changes its operands. Intersection, "
     "overlap and containment are exact for named and url versions too, as are all operations between specifiers made of "
     "single-version matches and exclusions; a match on a public version covers that version's local versions.",
     ["histories", "inputs"], "all specifiers reachable from a set of atomic ones by sequences of operations up to a depth, "
     "combined with every atom and with each other",
     "operands are compound results of earlier operations, which the solver builds in unbounded variety; tests use a dozen",
     [SRC + "api/versions/version_specifiers.py"],
     [("set operations of all specifier classes", SRC + "api/versions/version_specifiers.py")],
     "explicit-state closure of the real operations against a set model", "model_checking",
     "Breadth-first over all operation sequences to the reported depth; every transition runs the implementation and is "
     "compared with the set model, so every model trace is validated against it.",
     ["intersect_with", "union_with", "difference_from", "inverse", "allows_all", "allows_any"])

prop("C04", "Environment markers evaluate as PEP 508 says, malformed ones are rejected",
     "A marker comparison has the PEP 440 meaning when both sides are versions (other than post and local ones) and the "
     "meaning of Python's string comparison otherwise, in / not in test substrings, and comparing `extra` tests membership in "
     "the requested extras (whose names are compared like package names), with the variable on either side. `and` binds tighter than `or`, parentheses group, and neither "
     "whitespace nor the kind of quotes changes the result. A text that is not a marker, misses an operand, names an unknown "
     "variable or goes on after a complete marker is rejected with a ValueError.",
     ["inputs"], "all comparisons of variables and literals, all boolean formulas on all truth assignments, all short token "
     "sequences", "formulas, literals and environments combine without bound; tests evaluate about ten markers",
     [SRC + "api/dependencies/env_markers.py"],
     [("marker parser and evaluation", SRC + "api/dependencies/env_markers.py")],
     "bounded exhaustive enumeration of the real code against a reference semantics", "exploration",
     "All comparisons, formulas up to the bound on all assignments and all token sequences up to the bound; the comparison "
     "oracle uses the `packaging` library's version order.", ["EnvironmentMarker.parse_pep508", "evaluate_on"])

prop("C05", "Dependency texts mean what PEP 508 says and survive printing and parsing",
     "A dependency text yields exactly the package, extras, allowed versions (or url) and marker it is written with, however "
     "it is laid out with whitespace and parentheses, and printing the dependency and parsing it again gives one with the same "
     "package, extras, allowed versions, url and marker value on every environment. Two package names denote the same package "
     "exactly when they are equal ignoring case and after replacing runs of '-', '_' and '.' by a single separator. "
     "Dependencies can be hashed and compared, and equal ones have equal hashes.",
     ["inputs"], "all combinations of names, extras, version parts, markers and layouts; all short names",
     "parts interact (a marker after a url, extras before a parenthesised version); tests parse a few fixed texts",
     [SRC + "api/dependencies/dependency.py", SRC + "api/packages/package.py"],
     [("dependency parser and printer", SRC + "api/dependencies/dependency.py"),
      ("package name key", SRC + "api/packages/package.py")],
     "bounded exhaustive enumeration of the real code against construction parts and a reference identity", "exploration",
     "Every text of the product is parsed, compared with the parts it was built from, printed and parsed again.",
     ["Dependency.parse", "str(Dependency)", "package_name_key"])

prop("C06", "The solver's answer is a valid selection, and it finds one when one exists",
     "A selection the dependency solver returns contains the root, satisfies every dependency of every selected version, "
     "selects only versions that exist and are not malformed, and contains nothing that is not needed. The solver reports an "
     "unsolvable problem only if no such selection exists (not claimed when packages themselves require url versions), "
     "and it always terminates. If the most preferred version of every needed package fits, exactly those versions are selected.",
     ["inputs", "histories"], "all package universes of the enumerated shapes: every dependency edge independently takes one "
     "of a set of constraints", "conflict resolution and backtracking depend on the whole universe; tests solve a few fixed ones",
     [SRC + "resolution/pubgrub.py"],
     [("solver", SRC + "resolution/pubgrub.py")],
     "exhaustive enumeration of universes; the real solver compared with brute-force search", "exploration",
     "Every universe of the stated families is solved by the real code and by brute force; larger universes are not covered.",
     ["Solver.solve"])

prop("C07", "Resolved packages satisfy every applicable dependency, one version per package",
     "Resolving a request yields at most one version of each package, however its name is spelled, and exactly the packages "
     "that the request needs: for every selected package the dependencies whose markers hold for the environment and the "
     "requested extras are met (an overridden dependency is replaced by its override wherever it occurs), with only compatible, "
     "well formed packages of the repository, and the extras of a package get the same version as the package itself. "
     "If a selection exists one is found (not claimed for url dependencies and for pre-releases next to final "
     "releases), and the newest versions are selected if they fit together.",
     ["inputs", "configurations"], "all package universes of the enumerated families: names spellings x extras x markers x "
     "overrides x malformed or incompatible versions x urls",
     "the interplay of names, extras, markers and overrides with version choice is unbounded; tests resolve single fixed cases",
     [SRC + "resolution/dependency_resolver.py", SRC + "api/repositories/repository.py"],
     [("translation of dependencies to solver terms", SRC + "resolution/dependency_resolver.py"),
      ("matching and pre-release filter", SRC + "api/repositories/repository.py")],
     "exhaustive enumeration of universes; the real resolver compared with brute-force search", "exploration",
     "Every universe of the stated families is resolved by the real code over an in-memory repository.",
     ["resolve_dependencies"])
prop("C08", "Installing a wheel yields exactly its content; uninstalling removes exactly that",
     "A valid wheel is installed so that every file it carries is at the place its layout demands with its content (scripts "
     "start the environment's interpreter, each declared script entry point gets an executable launcher that calls it), "
     "nothing else is created or changed, and the installed RECORD lists each of these files once with the right hash and size. "
     "The package is then reported as installed with its name, version, dependencies and user request, and uninstalling it "
     "restores the site directories and all files of others as they were. A wheel with a file that is altered, unlisted or "
     "unsigned (changes within its own metadata directory are tolerated), without RECORD or metadata, or of another major "
     "format version is rejected and leaves nothing behind.",
     ["inputs", "configurations"], "all subsets of up to 3-4 of 21 content features x 4 site layouts, each defect of each file",
     "the space of wheel contents x site layouts x existing trees is unbounded; no existing test installs a wheel",
     [SRC + "api/distributions/wheel_distribution.py", SRC + "api/distributions/distinfo.py", SRC + "utils/files.py",
      SRC + "api/packages/site_packages.py", SRC + "launchers/executables.py"],
     [("wheel installer and verification", SRC + "api/distributions/wheel_distribution.py"),
      ("RECORD, entry points, WHEEL", SRC + "api/distributions/distinfo.py"),
      ("uninstallation", SRC + "api/packages/site_packages.py"), ("scripts", SRC + "launchers/executables.py")],
     "bounded exhaustive enumeration of wheel shapes, layouts and defects, executed on the real code in scratch environments",
     "exploration", "Each wheel is really installed and uninstalled; the tree is compared byte by byte.",
     ["WheelDistribution.install_to", "InstalledPackage.uninstall", "SitePackages"])
prop("C09", "A failed installation leaves no trace; a failed uninstallation can be repeated",
     "If any file system operation fails while a wheel is installed, then either the installation still completes fully or it "
     "is reported as failed and the environment is exactly as before: every overwritten file (also scripts, links and stale "
     "metadata) is restored and every new file and directory is gone. If any operation fails while a package is uninstalled, "
     "no file of others is touched, the package is not reported as removed while it is still installed, and repeating the "
     "uninstallation completes it.",
     ["fault_sequences", "inputs"], "every single failing file system operation and file size limit of every (wheel, layout, prior state)",
     "a failure can hit each of the dozens of file operations in each prior state; tests inject none",
     [SRC + "utils/files.py", SRC + "api/distributions/wheel_distribution.py", SRC + "api/packages/site_packages.py"],
     [("copy transaction and its roll back", SRC + "utils/files.py"),
      ("use of the transaction by the installer", SRC + "api/distributions/wheel_distribution.py"),
      ("uninstallation", SRC + "api/packages/site_packages.py")],
     "exhaustive single-fault enumeration over every file system operation of the real code", "fault_enumeration",
     "One fault per execution; the fault points are counted at run time, so code that adds operations adds cases.",
     ["WheelDistribution.install_to", "InstalledPackage.uninstall"])
prop("C10", "Installing keeps requested packages working and changes no more than it has to",
     "After a successful installation every dependency that was asked for, and every package the user requested before, is "
     "installed in an allowed version together with everything it needs (extras, markers and overrides considered), exactly the "
     "user's requests are recorded (a new one replaces an older one for the same package), nothing that is not needed gets added, "
     "and installed packages that need not be updated keep their versions whenever the new ones fit to them. Packages listed "
     "as updates (in any spelling) are never lost and get their newest fitting version. An installation is reported as unsolvable "
     "only when no choice of versions satisfies the old and the new requests, and then it changes nothing.",
     ["histories", "inputs"], "all histories of installs (updates, overrides, spellings), updates and uninstalls up to a depth over families of package universes",
     "what an installation may change depends on the whole history of requests; no existing test installs into an environment",
     [SRC + "api/packages/package_installation.py", SRC + "api/packages/site_packages.py", SRC + "api/packages/package.py"],
     [("planning and execution of installations", SRC + "api/packages/package_installation.py"),
      ("user request marks", SRC + "api/packages/site_packages.py"), ("update of one package", SRC + "api/packages/package.py")],
     "explicit-state search over operation histories, each transition executed by the real code and compared with a model", "model_checking",
     "States are read back from the directory tree; the model decides closures and solvability by brute force.",
     ["Environment.install", "PackageInstallationTarget.install", "InstallationPlan.execute", "Package.update_at"])
prop("C11", "Uninstalling removes what nobody needs any more, and nothing else",
     "Uninstalling packages (named in any spelling) removes each of them and everything that was only needed because of them, "
     "unless another package that the user requested needs it; a named package that is still needed stays and loses its user "
     "request mark, everything else keeps its version and mark, and exactly the named packages that were really removed are "
     "returned. This also works when installed packages violate each other's version requirements. The requested packages, orphans (installed "
     "but needed by no requested package) and installation trees that an environment reports are those that follow from the "
     "installed metadata; a forced removal removes exactly the named packages.",
     ["histories", "inputs"], "all histories of installs, uninstalls and forced removals up to a depth; all dependency graphs of 3 packages (thorough: 4) with all sets of requests",
     "what may be removed depends on the graph of all installed packages and requests; no existing test uninstalls anything",
     [SRC + "api/packages/package_installation.py", SRC + "api/packages/site_packages.py", SRC + "api/environments/environment.py"],
     [("uninstallation", SRC + "api/packages/package_installation.py"),
      ("orphans, requested packages and installation trees", SRC + "api/packages/site_packages.py")],
     "explicit-state search over operation histories, each transition executed by the real code and compared with a reachability model", "model_checking",
     "States are read back from the directory tree; the model is plain graph reachability over the installed metadata.",
     ["Environment.uninstall", "PackageInstallationTarget.uninstall", "SitePackages"])
prop("C12", "Parallel package operations have the outcome of executing them one by one",
     "Executing an installation plan with threads or worker processes leaves the same environment as executing its operations one by "
     "one, whatever the interleaving, also when packages share directories. When an installation in it fails, the failure is "
     "reported, the failed package leaves no trace, the other operations of the plan are complete, and nothing is still running "
     "when the plan ends (only operations that did not begin may be called off). A file given up by a removed or updated package "
     "and brought by a newly installed one is there afterwards.",
     ["schedules", "fault_sequences"], "all interleavings of the file system operations of two to four concurrent package operations with up to "
     "1 (thorough: 2) preemptions, with and without a failing operation; all execution modes",
     "the outcome depends on which of thousands of schedules the threads take; no existing test runs two operations at once",
     [SRC + "utils/files.py", SRC + "api/packages/package_installation.py", SRC + "api/packages/site_packages.py",
      SRC + "api/distributions/wheel_distribution.py", SRC + "utils/promises.py", SRC + "utils/multiproc/__init__.py"],
     [("execution of plans", SRC + "api/packages/package_installation.py"), ("waiting for and canceling promises", SRC + "utils/promises.py"),
      ("copy transactions", SRC + "utils/files.py"), ("worker processes", SRC + "utils/multiproc/__init__.py")],
     "stateless exploration of the real threads under a controlled scheduler with bounded preemptions", "exploration",
     "Every schedule is executed by the real code with one thread running at a time; switches happen at file system operations, "
     "restricted to those that do not commute with another thread's.",
     ["InstallationPlan.execute", "PackageInstallationTarget.install"])
prop("C13", "TOML documents are read as TOML says and rewriting them loses nothing",
     "Reading a valid TOML document gives the value that TOML defines (dates and times as the texts they are written in), a text with an "
     "unfinished or misplaced statement is rejected with a ValueError, and reading always ends. Writing data gives a valid document that reads back as "
     "the same data; writing data that was read and then edited, with the writer returned by the reader, gives a document that "
     "means exactly the edited data and still carries the comments of all statements the edit did not touch. Without an edit, all the non-blank "
     "lines of a document whose tables are in nesting order stay as they are.",
     ["inputs", "histories"], "all literals and documents up to a number of tokens / statements, all edits of their data (thorough: "
     "sequences of two edits), all data trees up to a size, all single character mutations of a set of documents",
     "every project, lock and configuration file goes through this hand-written parser and writer; no existing test covers it",
     [SRC + "config/toml.py", SRC + "utils/parsers.py"],
     [("parser and style preserving writer", SRC + "config/toml.py")],
     "exhaustive enumeration of documents and explicit-state search over edits, against a reference parser", "model_checking",
     "States are document texts, transitions are load, edit, dump executed by the real code; tomllib decides meaning and validity.",
     ["toml.loads", "toml.dumps", "toml.key2path"])
prop("C14", "Locked versions are what an environment resolves to, whatever others lock",
     "After the packages of an environment were locked (and the lock was saved), every environment with the same markers that resolves "
     "with the lock gets exactly the locked versions as long as they are published and satisfy the requirements, no matter which "
     "newer versions are published and which versions other environments lock before or after it. An environment without own locks "
     "prefers versions that others locked. Locking replaces the environment's own locks by what is installed and leaves those of "
     "others as they are; unlocking forgets the given packages under any spelling; saving and loading loses nothing.",
     ["histories", "configurations"], "all sequences (to a depth) of locking one of four environments with one of nine sets of packages, "
     "unlocking, saving and loading; all sequences of (environment, published versions) resolutions over families of package universes",
     "the guarantee is about sequences of resolutions by several users in several environments; no existing test covers the lock",
     [SRC + "resolution/packages_lock.py", SRC + "api/environments/environment.py"],
     [("lock and lock prioritizing repository", SRC + "resolution/packages_lock.py")],
     "explicit-state search over lock files: every transition is executed by the real lock, resolver and environment and compared with a model", "model_checking",
     "States are lock files; the model is a map from environments to locked versions; conformance is checked in every state.",
     ["PackagesLock", "LockPrioritizingRepository.match", "resolve_dependencies", "Environment.markers_hash"])
prop("C15", "Package lookups use exactly the configured repositories, in order, with bindings",
     "Looking up a package in the repository attached to a project, project group, environment, environment zoo or pkm gives the matching "
     "versions of the first repository of the search order that has any: the projects at hand, the project's own repositories in the "
     "order of the configuration, those of its group, its attached environment, the zoo of the environment, the global ones. "
     "inheritance = none ends the order, global continues with the global ones only. A bind-only repository serves only packages that "
     "are bound to it; a package that is bound in a context (under any spelling, by name or inline) comes only from its repository. "
     "Adding, removing, binding and unbinding through the api is effective at once, survives reloading and changes nothing else.",
     ["configurations", "histories"], "all combinations, from enumerated sets, of the configurations of the five contexts x queries; all sequences "
     "of edits, lookups and reloads to a depth",
     "which repository a package is taken from is a security matter (dependency confusion); no existing test covers contexts, bindings or inheritance",
     [SRC + "api/repositories/repository_management.py", SRC + "api/repositories/repository_loader.py", SRC + "repositories/file_system_repository.py"],
     [("repository management and loader", SRC + "api/repositories/repository_management.py"),
      ("file system repositories", SRC + "repositories/file_system_repository.py")],
     "exhaustive enumeration of configurations and explicit-state search over edits, every lookup executed by the real code and compared with a model of the search order",
     "model_checking",
     "States are configurations of the contexts on disk; conformance is checked by lookups, by reading the file with another parser and through the api.",
     ["Environment/Project/ProjectGroup/EnvironmentsZoo.attached_repository", "RepositoryManagement.add_repository, remove_repository, register_bindings"])
prop("C16", "Project operations keep pyproject.toml, the lock and the environment in step",
     "After `pkm install` in a project (with or without packages, --update, --optional, --force) has succeeded: pyproject.toml lists exactly what it "
     "listed before plus what was asked for, with its extras and markers (unversioned packages get a range from the installed version to "
     "the next major one), and nothing else in it changed; the project is installed in its environment together with everything it "
     "needs (and asked optional groups need) in versions that fit; what did not have to change did not; the lock lists exactly what "
     "is installed, locks of other environments stay. It succeeds whenever there is a solution; failing changes none of the three, nor the project "
     "object. Uninstalling removes the packages from the file (any spelling), and from the environment unless still "
     "needed. Another checkout gets the locked versions. A sequence on one project object does what it does with new ones.",
     ["histories", "configurations"], "all sequences (to a depth) of 27 / 19 operations over two package universes and five project files",
     "it is a guarantee about sequences of commands, each leaving three files behind for the next; no existing test installs a project",
     ["pkm-cli/src/pkm_cli/controllers/prj_controller.py", SRC + "api/projects/project.py", SRC + "api/projects/pyproject_configuration.py",
      SRC + "resolution/packages_lock.py"],
     [("commands", "pkm-cli/src/pkm_cli/main.py"), ("controller", "pkm-cli/src/pkm_cli/controllers/prj_controller.py"),
      ("project", SRC + "api/projects/project.py")],
     "explicit-state search: every transition is a command executed by the real command line on a real project directory, its files compared with a model", "model_checking",
     "States are (pyproject.toml, lock, environment, published versions); transitions are commands; the model decides solvability by brute force; conformance is checked in every state.",
     ["pkm install", "PrjController.install_dependencies, uninstall_dependencies", "Project.install_project"])
prop("C17", "Built wheels and sdists are what pyproject.toml and the sources say",
     "Building a project gives a valid wheel (a wheel-conforming file name, a complete and correct RECORD, WHEEL, valid METADATA, entry points) "
     "that contains exactly the packages of the project (configured or found: flat and src layouts; no caches, environments, hidden or pkm's own files), byte by byte, and "
     "whose metadata, read by other tools, has exactly what pyproject.toml says: name, version, summary, readme, license, authors, maintainers, keywords, "
     "classifiers, urls, python requirement, dependencies, optional dependencies, entry points, scripts. Editable wheels make the sources importable. Source distributions "
     "contain what is needed to build the same wheel again. The PEP 517 hooks give the same. A build on a project object with a history "
     "gives what a new one gives; saving a configuration keeps all it says; builds change no source, and one that fails or dies leaves no partial distribution.",
     ["programs", "configurations", "histories", "crash_points"],
     "all projects that differ from a base in up to 2 (3) fields, all sequences of build and edit operations to a depth, every file operation of a build failing or being the last one",
     "what is published cannot be taken back; every combination of fields and layouts has to work, no existing test builds anything",
     [SRC + "build/pkm_builders.py", SRC + "api/projects/pyproject_configuration.py", SRC + "api/packages/package_metadata.py", SRC + "build/buildsys.py"],
     [("builders", SRC + "build/pkm_builders.py"), ("project configuration", SRC + "api/projects/pyproject_configuration.py"),
      ("package metadata", SRC + "api/packages/package_metadata.py")],
     "exhaustive enumeration of small project configurations, explicit-state search over sequences of operations, fault and crash enumeration; every built file is read by independent tools (packaging, importlib.metadata, zipfile, tarfile) and compared with a model of the project",
     "model_checking",
     "States are projects on disk with what was built from them; transitions are builds and edits executed by the real code; conformance is checked on every file that is built.",
     ["Project.build_wheel, build_sdist, bump_version", "pkm.buildsys hooks", "PyProjectConfiguration.save"])
prop("C18", "Downloads are exactly what the server sent, whatever breaks and in all schedules",
     "Fetching a url through the http client gives exactly the content the server sent, or fails with an http error; a response that breaks "
     "or times out anywhere, an error status, a redirect that cannot be followed, or a process that dies never leaves something in the cache that a "
     "later fetch would take for the content. Whatever happened before (failures, lost or torn cache files, restarts, closed connections), "
     "the next fetch from a working server succeeds. The cache directive is respected: what is cached is used without a request (always), "
     "only if the server says it is current (ask for update, with the stored validators), or not at all (never). Different urls never share content, the "
     "request is for exactly that url (host, port, path, query, credentials), redirects lead where their location says; nothing is written outside of "
     "the cache. The same holds for threads that fetch at the same time; they never wait for each other forever. Payloads are sent completely, also when sent again; forms are well-formed.",
     ["schedules", "crash_points", "fault_sequences", "histories", "inputs"],
     "responses cut at every byte, redirect chains, all sequences of operations to a depth, all schedules up to 2 (3) preemptions, every file operation of a fetch failing or being the last",
     "what is downloaded is installed and executed, and a wrong cache entry stays; no existing test breaks a connection, or uses the network at all",
     [SRC + "utils/http/http_client.py", SRC + "utils/http/cache_directive.py", SRC + "utils/http/mfd_payload.py", SRC + "utils/promises.py"],
     [("http client", SRC + "utils/http/http_client.py"), ("cache directives", SRC + "utils/http/cache_directive.py"),
      ("form payloads", SRC + "utils/http/mfd_payload.py")],
     "stateless exploration of the real client: an in-memory network whose servers are cut at every byte, a cooperative scheduler that enumerates thread schedules at locks, network and file operations, fault and crash enumeration, all histories to a depth", "model_checking",
     "States are the cache directory, the pooled connections and the server; transitions are fetches, server changes, failures; the model knows what the server sent; conformance is checked on every fetch.",
     ["HttpClient.fetch_resource, get, post", "FetchedResource.is_hash_valid, data", "MultipartFormDataPayload"])
prop("C19", "A package index offers exactly what its pages list, and uploads arrive whole",
     "Asking a repository of type pypi or simple for a package gives, newest first and each version once, the versions that the index lists with a file "
     "that the environment can use: a wheel with compatible tags or an sdist, whose python requirement is met, that is not yanked, and that the "
     "specifier allows (pre-releases only if asked for or if there is nothing else; whether ranges allow post releases is not claimed). One unusable or "
     "malformed file does not change what is offered besides it. The result does not depend on how the index presents the same files: order, spelling of "
     "the requested name, absolute, relative or base-relative links, quoting and case of the markup, which digests are given, redirects. A change of the "
     "index is seen by the next process, and by the next lookup for pypi. Files are downloaded from where the index says; a download that does not have "
     "the digest the index gives is never installed and does not hinder a later attempt. A package that a repository of an environment does not have is "
     "looked up in the next one; a repository that cannot be asked is an error and is not skipped. Publishing sends each distribution with its "
     "content, its digests and its metadata in a well-formed form, and succeeds only if the server accepted all of them.",
     ["inputs", "fault_sequences", "histories", "configurations"],
     "all listings of up to 3 (4) files out of 22 kinds, presentations of an index that differ in up to 3 (4) aspects, all sequences of operations to a depth, all combinations of states of the repositories of an environment, every way an upload ends",
     "everything that is installed is found this way, and what is executed is what was downloaded; no existing test uses an index",
     [SRC + "repositories/pypi_repository.py", SRC + "repositories/simple_repository.py", SRC + "api/packages/standard_package.py", SRC + "api/repositories/repository_management.py"],
     [("pypi index", SRC + "repositories/pypi_repository.py"), ("simple index", SRC + "repositories/simple_repository.py"),
      ("choice of artifacts", SRC + "api/packages/standard_package.py")],
     "exhaustive enumeration of small indexes, presentations and fault sequences, explicit-state search over histories of index changes, lookups and installations with the real repositories over an in-memory network, against a model of the index (versions and specifiers by packaging)",
     "model_checking",
     "States are the index, the download cache and the environment; transitions are changes of the index, failures, lookups, installations, uploads executed by the real code; conformance is checked after each.",
     ["Repository.match", "Environment.install", "Project.publish", "Environment.attached_repository"])

prop("C20", "Containers keep an application, its dependencies and its plugins to themselves",
     "Installing a package (or a project, its wheel or a distribution of it) as a containerized application puts it, in the newest version that its "
     "request and the plugins allow, with everything that it needs, in versions that satisfy all their requirements, into a container of the environment; "
     "what is in the environment or in other containers neither influences that nor is it changed by it, and vice versa. The commands of the application "
     "(those of the version that was installed or updated last) and of the packages it exposes run with the interpreter of the environment, exactly the "
     "packages of the container, the given arguments and the exit status of what they run, and so do interpreters and commands that they start; the "
     "environment itself, its interpreter and its own commands see none of it. Containers and their plugins are listed as they are, whichever way "
     "names are written. Records list every file of the container with its hash. Requests that cannot be satisfied, and "
     "installations and updates that fail at any file operation, leave the environment as it was; what failed can be repeated. Removing a container leaves "
     "the environment as it was before. (Not claimed: packages of which one command is both in the container and in the environment, the commands "
     "after the application itself was changed by an operation on its plugins.)",
     ["histories", "fault_sequences", "configurations"],
     "all sequences of 3 (4) out of 27 operations on an environment with up to 4 containers; every file operation of an installation, update, removal failing; all small containerized projects, distributions and their wheels",
     "isolation is a statement about every history of what is installed next to each other, and about every point of failure; there is no test of containers",
     [SRC + "api/environments/package_containers.py", SRC + "build/pkm_app_builders.py", SRC + "launchers/executables.py", SRC + "api/distributions/wheel_distribution.py"],
     [("containers", SRC + "api/environments/package_containers.py"), ("wheels of containerized applications", SRC + "build/pkm_app_builders.py")],
     "explicit-state search over histories of operations and exhaustive fault injection on real environments; every state is read back from the trees and by running its commands, against a model of what is requested where",
     "model_checking",
     "States are the tree of the environment; transitions are operations (and failing ones) executed by the real code; in every distinct state all commands of all containers are executed and compared with the model.",
     ["PackageContainers.install", "PackageContainer.uninstall", "PackageContainer.installation_target", "Project.build_wheel"])

prop("C21", "Environments of a zoo share packages and never affect each other by it",
     "Every sequence of installing and uninstalling packages and applications in the environments of a zoo, deleting environments and cleaning "
     "what is not used has, in each environment, the result that it has without a zoo: the packages (in versions that satisfy all requirements), their "
     "modules, metadata, scripts and RECORDs with the right hashes are there, and the commands run with the environment's own interpreter and packages. "
     "If sharing is enabled (which is the default), a package whose files are in one site directory, which is not excluded (whichever way its name is "
     "written) and whose version is a standard one is in the shared directory once per compatible artifact and used from there by all environments; "
     "otherwise it is in the environment itself. No operation on one environment changes anything of another, what is shared does not change once it "
     "is there, cleaning removes exactly the artifacts that no environment and no container of one uses, and deleting removes exactly the environment. An "
     "installation that fails at any file operation, or whose process ends there, leaves the other environments as they work and what they install later "
     "right; a failed one can be repeated. Exported commands are copies of those of the environment, activating the zoo puts them first in the "
     "path and is undone at its end. (Not claimed: the state of the environment itself after its process was killed.)",
     ["histories", "crash_points", "fault_sequences", "configurations"],
     "all sequences of 3 (4) out of 28 operations on two environments with different interpreters in 5 configurations; every file operation of chosen ones failing or being the last of its process; all exports",
     "what one environment may do to another through shared files depends on the history of both, and on where an operation ended; there is no test of sharing",
     [SRC + "repositories/shared_pacakges_repo.py", SRC + "api/environments/environments_zoo.py", SRC + "api/distributions/pth_link.py"],
     [("shared packages", SRC + "repositories/shared_pacakges_repo.py"), ("environment zoos", SRC + "api/environments/environments_zoo.py")],
     "explicit-state search over histories of operations, exhaustive fault and crash injection on real environments that share packages; every state is read back from the trees and by running the commands, against a model of what is requested where",
     "model_checking",
     "States are the tree of the zoo; transitions are operations (failing ones and ones whose process ends too) executed by the real code; in every distinct state the environments are read back and all their commands executed and compared with the model.",
     ["EnvironmentsZoo", "SharedPackagesRepository", "Environment.install", "PackageContainers.install"])

prop("C22", "Exactly the wheels an interpreter supports are compatible, the best is used",
     "For every interpreter (CPython with and without debug or free threading, PyPy; any version, final or not) on every platform (Linux with glibc or musl, "
     "32 and 64 bit, macOS, Windows, others), a compatibility tag is accepted exactly if PEP 425, 513, 571, 599, 600 and 656 say that such an "
     "interpreter supports it, and a compressed set of tags if one of its parts is; malformed tags and parts are not supported and disturb no other. "
     "Scores of tags prefer the own abi to the stable abi to none, a platform to any, the interpreter to generic python, and closer versions of "
     "python, C library and macOS to older ones; of the files of a version, an index repository gives the environment the supported wheel that is preferred, a source "
     "distribution only without any. The markers and the version of an environment are those of its interpreter, also if what is stored about it was cut off. (Not claimed: "
     "tags that nobody builds, like an abi for any platform or py3 with an abi; glibc before 2.17 except on x86; formats of PowerPC and 32 bit macOS.)",
     ["configurations", "inputs"],
     "9 interpreters x 32 platforms x 29 x 15 x 155 tags, all pairs of parts, all lists of up to 3 (4) of 10 files",
     "tests run on one interpreter; that a wheel is refused or wrongly taken on another one is never seen by them",
     [SRC + "api/environments/environment_introspection.py", SRC + "api/packages/standard_package.py", SRC + "api/environments/environment.py"],
     [("compatibility tags, ELF and libc detection, markers", SRC + "api/environments/environment_introspection.py"),
      ("choice of the artifact", SRC + "api/packages/standard_package.py")],
     "bounded exhaustive enumeration of interpreters, platforms and tags, executed by the real code on environments whose interpreter says so, against a reference",
     "exploration",
     "Every combination within the bounds is executed; the reference uses `packaging.tags` for interpreters and macOS, and an own table for Linux.",
     ["Environment.compatibility_tag_score", "Environment.markers", "Environment.interpreter_version", "best_artifact_for"])

prop("C23", "Source distributions are built as PEP 517 says, once, whatever interrupts it",
     "For every behaviour of the hooks of a build backend (absent, successful, raising, ending the process; with any output), wherever the backend is "
     "(in the tree, at some backend-path, in a required package; a module or an object in one) and for all requirements it has (none, wheels, packages that have to be "
     "built themselves, ones that do not exist, cyclic ones), building a source tree or source distribution calls exactly the hooks that PEP 517 and 660 "
     "define for that kind of build (the metadata is taken from a wheel if there is no hook for it), in the root of the source, in an environment with exactly "
     "what is declared and what the get_requires hook asked for, and the result is what the backend made; otherwise the build fails with an error (also for cyclic requirements) and "
     "the environment it is built for and the temporary directory are as before. For every history of requests, the metadata and the installed files are those of the given archive; "
     "archives that were built for an environment are not built again for such an environment, even by another process, and what was built for "
     "another archive or kind of environment, or before a failed build, is not used. A build that fails at any file operation on the cache, or whose process ends there, does not affect later results. "
     "(Not claimed: how often archives are built if several archives of the same version are used in turn; backends of Windows; concurrent processes.)",
     ["histories", "crash_points", "fault_sequences", "configurations"],
     "every pair of 38 backend options, all combinations of what the hooks do, all sequences of 2 to 3 (4) out of 6 requests, of breaking and repairing a backend, every file operation on the cache failing or being the last of its process",
     "no test builds a source distribution with a backend that is not complete, builds a requirement, or is interrupted",
     [SRC + "build/source_build_cache.py", SRC + "build/external_builders.py", SRC + "api/distributions/source_distribution.py"],
     [("cache of builds", SRC + "build/source_build_cache.py"), ("PEP 517 front end", SRC + "build/external_builders.py"), ("processes", SRC + "utils/processes.py")],
     "explicit-state search over histories of build requests with exhaustive fault and crash injection, and exhaustive enumeration of backend behaviours, run by the real code with real backends in real environments, against a model of PEP 517",
     "model_checking",
     "Every history is executed by the real code with backends that log each call and what is importable in it; the model says which calls and results there have to be.",
     ["Distribution.package_from", "SourceBuildCache", "Project.build_wheel", "Project.build_sdist"])

prop("C24", "Project groups have the projects and parents that their files say",
     "For every layout of nested groups (with projects and groups as children in any order, in other directories, with spaces, listed by several groups; "
     "missing directories and ones that are neither a project nor a group), however a child is written (relative, with dots, absolute, via a link) and "
     "however the project or group is reached (absolute, relative to any current directory, via a link, by its group, unpickled): the children of a group are the projects and "
     "groups that it lists, in that order, its recursive children are all projects of it and of its groups, the group of a project and the parent of a group is the "
     "closest group in a directory above that lists it (or the parent that is configured), and the root is the top most parent, none for the top. A file system repository of a group has exactly "
     "these projects with the versions that match. For every sequence of additions (of paths, absolute or relative to the current directory, and of projects) and removals (by path or "
     "name) the same object and a new one agree on the children; adding twice adds once, and other settings of the group, other groups and the files of projects are as before. "
     "(Not claimed: cyclic groups; how an added path is written in the file.)",
     ["histories", "configurations", "inputs"],
     "all layouts of 3 nested groups with 8 x 5 x 3 lists of children, 4 ways to write them, 3 kinds of parent, 6 ways to get there; all sequences of up to 2 (3) of 20 additions and removals",
     "no test covers project groups with more than one level, with other current directories, or their changes",
     [SRC + "api/projects/project_group.py", SRC + "repositories/file_system_repository.py", SRC + "api/projects/project.py"],
     [("project groups", SRC + "api/projects/project_group.py"), ("file system repository", SRC + "repositories/file_system_repository.py")],
     "explicit-state search over histories of additions and removals and exhaustive enumeration of layouts, executed by the real code against a reference model",
     "model_checking",
     "Every layout and history is executed by the real code on real files; the model has only the lists of children.",
     ["ProjectGroup.children", "ProjectGroup.project_children_recursive", "ProjectGroup.add", "ProjectGroup.remove", "Project.group", "FileSystemRepositoryBuilder"])

prop("C25", "Installed interpreters are found whatever is in PATH; activations are undone",
     "For every PATH (entries that are missing, files, links, loops, relative, repeated, too long or not readable) and all files in its directories (other names, directories, broken links, "
     "programs that are not executable, have no interpreter, fail, are killed or print anything else), the installed interpreters are exactly the working ones with names of interpreters, each "
     "once (by the executable that it reports), and the running one, the newest version first and of those with the same version the one that is first in PATH; nothing else hides them. The same "
     "holds for configured search paths, in which the files named python are looked for. The matching interpreters are those with versions that the specifier allows, in that order; an environment for a specifier "
     "uses an interpreter that it allows or nothing is created. In nested activations of environments and zoos PATH starts with their directories, the innermost first, VIRTUAL_ENV "
     "is the innermost environment, and after each of them (also if it raises) all variables are as before. (Not claimed: an unset PATH, the order in one directory, Windows, interpreters that do not end.)",
     ["configurations", "inputs"],
     "24 kinds of executables x 12 names, all pairs of kinds (triples), 15 forms of PATH, all lists of up to 3 of 5 search paths, all nestings of up to 3 (4) activations",
     "tests run with the PATH of the machine, which has one working interpreter and nothing broken in it",
     [SRC + "api/environments/installed_pythons_locator.py", SRC + "api/environments/environment_builder.py", SRC + "api/environments/environment.py", SRC + "api/environments/environments_zoo.py"],
     [("installed interpreters", SRC + "api/environments/installed_pythons_locator.py"), ("creation of environments", SRC + "api/environments/environment_builder.py")],
     "bounded exhaustive enumeration of PATHs, executables and nested activations, executed by the real code against a reference",
     "exploration",
     "Every combination within the bounds is executed with real files and processes as an unprivileged user; the reference knows what each file does.",
     ["InstalledPythonsLocator.all_installed", "InstalledPythonsLocator.match", "EnvironmentBuilder.create_matching", "Environment.activate", "EnvironmentsZoo.activate"])

prop("C26", "Git dependencies have the current content of the reference that is asked for",
     "For every history of changes of a git repository (commits on branches, rewritten and deleted branches, new branches) and requests of it without a reference or with a branch (also one with a "
     "slash or named like a directory of the repository), a tag or a commit, each request has the content that the reference has then, or fails if there is no such reference, whatever was requested before "
     "by the same or another process. This holds for urls with user names, ports and fragments, for names of packages that are written differently, and for packages in the (nested) project group "
     "of the repository; what is installed is that content. A request of which any git command fails, or whose process ends before, in or after it, does not affect "
     "later ones. (Not claimed: tags that are moved, a default branch that becomes another one, references that are both a tag and a branch, subdirectories, what a killed fetch leaves in the clone, concurrent requests.)",
     ["histories", "crash_points", "fault_sequences", "inputs"],
     "all sequences of up to 3 (4) of 5 changes and 9 references, 10 (15) points of failure for each of 10 requests, 84 urls",
     "no test uses a git repository",
     [SRC + "repositories/git_repository.py"],
     [("git repository", SRC + "repositories/git_repository.py")],
     "explicit-state search over histories of changes and requests with exhaustive failures and process ends at git commands, run by the real code with real git repositories, against a model of references",
     "model_checking",
     "Every history is executed by the real code with git on real repositories; the model says what each reference has.",
     ["GitRepository.match", "Package.dependencies", "Package.install_to"])
