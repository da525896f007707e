LIB = "lib/digitraffic-common/src/"
IGVN = "gated value-graph abstract interpretation (dataflow + path conditions as BDDs) of the type-checked source"
NOTE = "All paths of the analysed entry points, every input symbolic and every opaque call able to throw or reject; trusts the TypeScript checker, the engine's semantics of the JavaScript subset used, and the names of external SDK calls."
def P(id, title, statement, over, q, why, files, mech, technique=IGVN, note=NOTE):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why,
        files=[f if "/" in f and not f.startswith("@") else f for f in files], mech=mech, technique=technique, note=note))
PROPS = []
DB = LIB + "database/database.ts"
P("D01", "A database connection is released on every exit",
  "Every database connection opened for a unit of work is closed before the caller's promise settles, whether the work succeeds, throws, rejects or fails to start. The connection is never closed while the work is still using it.",
  ["fault_sequences", "schedules"], "every outcome of every call made between opening and closing, for the read-write, read-only and transactional entry points",
  "The unit tests never fail the session reset, the work and the close at chosen points; the property quantifies over every failing point.",
  [DB], [("try/finally around the caller's function with an awaited pool end", DB)])
P("D02", "Database work runs once, in a fresh session, and its outcome is the caller's",
  "The caller's database function runs at most once per call, only after the pooled session's state was discarded, and inside a transaction when one was asked for. Its result is what the caller gets; a failure is logged and reaches the caller unchanged.",
  ["fault_sequences", "inputs"], "every outcome of the reset, of the function and of the transaction",
  "Tests sample success on a live database; they do not enumerate which call fails and what the caller then sees.",
  [DB], [("awaited DISCARD ALL before the function, log and rethrow", DB)])
P("D03", "Database work goes to the promised endpoint with the configured credentials",
  "Read-write and transactional work connects only to the writer endpoint and read-only work only to the reader endpoint, with the configured user, password and application name. A missing setting is an error before any connection exists.",
  ["configurations"], "every combination of present and absent connection settings",
  "Tests run with one fixed environment and one database behind both endpoints.",
  [DB], [("endpoint choice and URL assembly", DB)])
P("D04", "Database numbers arrive as numbers; NULL becomes undefined only on request",
  "Integer, floating and numeric columns are delivered as numbers on every connection. NULL columns become undefined exactly when the caller asked for it, and no other column value is rewritten.",
  ["inputs", "configurations"], "every entry point, every row and both settings of the conversion flag",
  "Needs a live database for each type and flag; no unit test covers the conversions.",
  [DB], [("type parsers and the receive hook", DB)])
SH = LIB + "aws/runtime/secrets/secret-holder.ts"
P("S01", "Secrets are cached for five minutes and never served stale",
  "A secret read within five minutes of its last fetch is served without fetching; after that it is fetched again. A failed fetch fails the read, is not cached, and never yields the expired value.",
  ["histories", "fault_sequences"], "every sequence of three reads, any elapsed times, any fetch failing",
  "The tests use one clock step and a fetch that always succeeds.",
  [SH], [("TTL comparison and fetch time bookkeeping", SH)])
P("S02", "Credentials are set only from a complete secret, each from its own field",
  "Database credentials are written to the environment only when the secret has every required field, and each variable gets the value of its own field. A secret missing an expected key is rejected before anything is written.",
  ["inputs", "configurations"], "every secret, with any subset of the required keys, for both kinds of credential holder",
  "Tests sample complete secrets and one missing key.",
  [LIB + "aws/runtime/secrets/proxy-holder.ts", LIB + "aws/runtime/secrets/rds-holder.ts", SH], [("expected keys check", LIB + "aws/runtime/secrets/dbsecret.ts"), ("environment writes", LIB + "aws/runtime/secrets/proxy-holder.ts")])
P("S03", "A secret prefix selects exactly the prefixed keys; the environment wins",
  "Reading a secret with a prefix yields exactly the keys starting with that prefix and a dot, stripped of both, with their own values. A setting present in the environment wins over the secret, one present in neither is an error, and the secret store used is the override region's when set.",
  ["inputs", "configurations"], "every secret content, prefix and environment",
  "Tests sample a handful of secrets.",
  [LIB + "aws/runtime/secrets/secret.ts", SH], [("prefix parsing", LIB + "aws/runtime/secrets/secret.ts")])

LG = LIB + "aws/runtime/dt-logger.ts"
P("G01", "Every log call writes one complete line and changes nothing",
  "Each log call writes exactly one line with the level asked for, a method, and the runtime's function identity. The caller's object is not modified, error details are included when an error is given, and debug is the only level that can be suppressed.",
  ["inputs", "configurations"], "every level, every logged object, every configuration of the logger",
  "Tests check a few sample objects against the written text.",
  [LG], [("line assembly", LG)])
P("G02", "Logging never fails the work that logs",
  "No value given to the logger or to the exception logger makes it throw. An exception is always logged with its message and, when it has them, its code and stack.",
  ["inputs"], "every loggable value, including ones that cannot be serialized",
  "Tests log serializable values only.",
  [LG, LIB + "utils/logging.ts"], [("serialization and fallback", LG)])
RT = LIB + "utils/retry.ts"
P("R01", "Retries stop at their limit, at a permitted error, and wait in between",
  "A retried call is made at most the given number of times plus one, stops at the first success and yields its result, is repeated only for errors the predicate accepts, and waits the computed delay before each repeat. When attempts run out the failure reaches the caller.",
  ["fault_sequences", "histories", "configurations"], "every outcome of every attempt up to the unrolled limit, every predicate answer, delay and limit",
  "Tests run a few fixed sequences of failures.",
  [RT], [("recursive attempt with remaining count", RT)])
P("R02", "A wrapped handler runs once, logs its failure and reports its outcome",
  "A function wrapped by the handler factory runs exactly once per invocation with the original event, its result is the invocation's result, and its failure is logged or handled by the configured error handler and never lost. Completion is recorded whatever the outcome.",
  ["fault_sequences", "inputs", "configurations"], "every outcome of the wrapped function, every event and configuration of the factory",
  "Tests sample one success and one failure.",
  [LIB + "aws/infra/api/handler-factory.ts"], [("handler factory", LIB + "aws/infra/api/handler-factory.ts")])
PX = LIB + "aws/types/lambda-proxy-types.ts"
P("P01", "A proxy response describes the body it carries",
  "A proxy response is marked gzip exactly when its body was compressed and base64 exactly when its body is base64; the body is the given one, its ETag is that of the uncompressed text, and status and headers are the ones asked for. A response over 6 MiB is replaced by a 400, an empty body is refused unless the status allows it, and base64 bodies are never encoded twice.",
  ["inputs", "configurations"], "every body, encoding flag, status, compression choice, header combination and response size",
  "Tests check chosen bodies; the agreement of headers, flags and body must hold for every combination and size.",
  [PX], [("build and encodeBody", PX)])
P("P02", "A lambda response carries its body encoded, tagged and bounded",
  "Every lambda response has the status asked for, the base64 of its UTF-8 body, an ETag of that body and the timestamp and file name given. An empty body is refused and a response over 6 MiB becomes a 400 with a fixed message.",
  ["inputs", "configurations"], "every body, status, timestamp, file name and size, for the builder and every shorthand",
  "Tests sample a few bodies below the limit.",
  [LIB + "aws/types/lambda-response.ts", LIB + "utils/base64.ts"], [("builder and shorthands", LIB + "aws/types/lambda-response.ts")])
IN = LIB + "aws/infra/api/integration.ts"
P("P03", "Requests reach the lambda complete, escaped and unmixed",
  "For every integration, the lambda's event is valid JSON whatever the client sends: each declared parameter arrives under its name from its own part of the request, escaped once, and a body arrives base64 encoded. Nothing undeclared is passed unless passing all was asked for, and then it never replaces a named parameter; conflicting or reserved names are refused.",
  ["inputs", "configurations"], "every request content, for every combination of parameter kinds, pass-all and body",
  "The template runs only in API Gateway; tests compare or render it for single requests.",
  [IN], [("request template", IN)],
  technique="abstract execution of the source's Velocity template constants over gated value-graph abstract interpretation",
  note="Template constants are folded from the source and executed on all paths with symbolic request values, loops unrolled 0..2 times; trusts the Velocity subset semantics.")
P("P04", "The response template restores status, headers and body",
  "The response sent to the client has the status of the lambda's response and its decoded body; ETag, Last-Modified and Content-Disposition are sent exactly when the lambda gave them. Errors are plain text, and deprecated methods, and only those, are marked so.",
  ["inputs", "configurations"], "every lambda response, for current, deprecated and sunset integrations",
  "The template runs only in API Gateway.",
  [LIB + "aws/infra/api/response.ts", LIB + "aws/runtime/digitraffic-integration-response.ts"], [("response template", LIB + "aws/infra/api/response.ts")],
  technique="abstract execution of the source's Velocity template constants over gated value-graph abstract interpretation",
  note="Template constants are folded from the source and executed on all paths with symbolic response fields; trusts the Velocity subset semantics.")
P("P05", "Query parameters keep all their values",
  "A query parameter with several values reaches the handler as the array of all of them in order, one declared multi-value always as an array, and any other as its single value. An event without parameters gives no parameters.",
  ["inputs"], "every event content for one to three values, both parameter maps and declarations",
  "Tests sample a few events.",
  [LIB + "utils/lambda-proxy-event.ts"], [("merging of both parameter maps", LIB + "utils/lambda-proxy-event.ts")])

CD = LIB + "aws/infra/canaries/"
P("R08", "A database canary passes only when every check was within its limits",
  "A database canary run succeeds exactly when every query it was given answered a count within that check's limits, a zero limit included, and it fails when a query fails, answers nothing or is out of limits. Credentials are read before any query, every check is awaited, and a check outside its allowed time is skipped.",
  ["inputs", "fault_sequences", "configurations"], "every sequence of checks, every count and limit, every outcome of each call",
  "The canary code runs only in CloudWatch Synthetics against a live database; no unit test reaches it.",
  [CD + "database-checker.ts", CD + "canary-parameters.ts"], [("count comparisons and step loop", CD + "database-checker.ts")])
P("R09", "A URL canary passes only for the promised response and keeps keys secret",
  "A URL check succeeds only when the response has the expected status and content type and every given content check passes on the complete decoded body. The API key is sent exactly on the calls that need it and appears in no step name or recorded header.",
  ["inputs", "fault_sequences", "configurations"], "every response, chunking, content encoding, check callback outcome and key configuration",
  "The canary code runs only in CloudWatch Synthetics against a live service; no unit test reaches it.",
  [CD + "url-checker.ts"], [("response callback and header assertions", CD + "url-checker.ts")])

IF = LIB + "aws/infra/"
P("I01", "The stack check reports every prohibited resource and nothing else",
  "At synthesis every function without bounded concurrency, timeout, memory or a supported runtime, misnamed function, test stack in production or reverse, untagged stack, open bucket, unencrypted queue, endless log and miscased parameter is reported on its construct. A whitelisted error becomes a warning, a whitelisted warning disappears, and every stack is checked with its own name and whitelist.",
  ["configurations"], "every checked kind of resource, each checked property at and around its limit, with and without matching whitelists",
  "Tests sample a few resources; the rules must hold for each property value and whitelist, and no stack may opt out.",
  [IF + "stack/stack-checking-aspect.ts", IF + "stack/stack.ts"], [("visit and its rules", IF + "stack/stack-checking-aspect.ts"), ("aspect attached in the constructor", IF + "stack/stack.ts")])
P("I06", "The web ACL limits every request as configured",
  "A request with a non-empty user header counts only towards named-user limits and any other request only towards anonymous ones, at the limit and per the address or path configured; blocking rules answer 429 with an existing body, counting rules block nothing and come first. IP, size and managed rules block exactly what they name, priorities are distinct, and an ACL without rules or with duplicate names is refused.",
  ["inputs", "configurations"], "every builder call and order, evaluated on requests with absent, empty and present headers, matching and other paths and addresses",
  "Tests count the rules built; none evaluates what the rules match.",
  [IF + "acl-builder.ts"], [("rule construction and ordering", IF + "acl-builder.ts")])
P("I02", "A function gets exactly the access it was built with",
  "A built function has the network, database group, secret and environment its builder's access settings name, and nothing it opted out of; each setting changes only its own property and never another function's. Allowed actions and policies reach the function's own role and no other, the wildcard action is refused, and by default concurrency, memory, run time and log retention are bounded.",
  ["configurations", "histories"], "every combination of accesses, each setter, current and older factories, with and without network, secret and environment",
  "Tests look at a few built templates; the guarantee is about every combination of settings and about functions built side by side.",
  [IF + "stack/dt-function.ts", IF + "stack/monitoredfunction.ts", IF + "stack/lambda-configs.ts", IF + "stack/lambda-log-group.ts", IF + "stack/stack.ts"],
  [("builder and its build step", IF + "stack/dt-function.ts"), ("older factories", IF + "stack/monitoredfunction.ts"), ("secret grant", IF + "stack/stack.ts")])
P("I03", "Every function is watched by alarms that fire at its limits",
  "A function built with default alarms has one alarm each for reaching its timeout, for nearing it, for any error and for any throttling, on its own metrics, going to the alarm topic in production and otherwise to the warning topic. Disabling one leaves the rest, own settings including a zero limit are used, and disabling all at once is refused in production.",
  ["configurations"], "each alarm enabled, disabled and with own settings, in and out of production, for both ways of making a function, evaluated on both sides of the limit",
  "Tests do not evaluate when an alarm fires or where it is sent.",
  [IF + "stack/dt-function.ts", IF + "stack/dt-function-alarms.ts", IF + "stack/monitoredfunction.ts"], [("alarm creation", IF + "stack/dt-function.ts"), ("default alarms", IF + "stack/dt-function-alarms.ts"), ("older alarm creation", IF + "stack/monitoredfunction.ts")])
P("I04", "No queued message is lost, leaked or sent elsewhere",
  "Every queue is encrypted whatever settings are given and moves failing messages to its dead-letter queue, whose every message is written as an object of its own into one private bucket or else fails its batch to be delivered again, with an alarm at the first message. The embedded dead-letter program is complete, bucket names are valid and distinct for every input, and a request is answered as a success only when the queue accepted its whole body.",
  ["configurations", "inputs", "fault_sequences"], "every combination of queue settings, bucket names of any length and characters, batches with any record failing, every status the queue service can answer",
  "Tests parse the embedded program with stubs and sample names; losing a message needs a failing upload or a refusal they never make.",
  [IF + "sqs-queue.ts", IF + "sqs-queue-internal.ts", IF + "sqs-integration.ts"], [("queue and dead-letter construction", IF + "sqs-queue.ts"), ("embedded program and bucket names", IF + "sqs-queue-internal.ts"), ("API to queue integration", IF + "sqs-integration.ts")],
  technique=IGVN + "; the embedded program rebuilt as a constant and resolved by the type checker; character-class and length domain for names")
P("I05", "APIs admit, export, document and share only what they are told to",
  "An API given a list of addresses, even an empty one, refuses every other address and otherwise admits all; unknown paths answer 404, and its keys, plans, models and documentation belong to that API alone. The exported address and key are its own, the key being the one chosen or the only one and never a guess, and a bucket opened to a distribution is readable by that distribution only.",
  ["configurations"], "any address list, own settings, any number of keys with and without a choice, each kind of documentation, both ways of making an API",
  "Tests build one or two APIs and snapshot them; none decides who gets in or whose key is exported.",
  [IF + "stack/rest-api.ts", IF + "usage-plans.ts", IF + "bucket-policy.ts", IF + "documentation.ts"],
  [("API construction, keys and export", IF + "stack/rest-api.ts"), ("usage plans", IF + "usage-plans.ts"), ("bucket grants", IF + "bucket-policy.ts"), ("documentation parts", IF + "documentation.ts")])
P("I07", "Values shared between stacks keep their meaning",
  "Every name read from a parameter or another stack's output is the one some stack writes: the imported network is the exported one with its private subnets in order, and the reading and writing names of clusters and proxies resolve to reading and writing endpoints, for created and imported clusters. Names of different values and environments never coincide.",
  ["configurations"], "each environment name, created and imported cluster, every shared parameter and output",
  "The writer and the reader are different stacks deployed separately; tests build one at a time.",
  [IF + "stack/parameters.ts", IF + "import-util.ts", IF + "stacks/db-stack.ts", IF + "stacks/db-proxy-stack.ts", IF + "stacks/db-dns-stack.ts", IF + "stacks/network-stack.ts"],
  [("parameter names", IF + "stack/parameters.ts"), ("output names", IF + "import-util.ts"), ("records", IF + "stacks/db-dns-stack.ts")])
P("I08", "The database is private, protected and reached only as configured",
  "A cluster, new or restored from a snapshot, is encrypted unless that is turned off, in private subnets behind the given security group, protected from deletion, kept and backed up, with its superuser from the given secret and never unwrapped. The proxy serves the named cluster with the given secret and group, its reading endpoint cannot write, and a configuration with no cluster or two sources is refused.",
  ["configurations"], "every combination of optional settings: encryption, snapshot, network, readers, imported cluster, proxy name",
  "Tests check one configuration; the protections must hold in all of them.",
  [IF + "stacks/db-stack.ts", IF + "stacks/db-proxy-stack.ts"], [("cluster parameters", IF + "stacks/db-stack.ts"), ("proxy and read-only endpoint", IF + "stacks/db-proxy-stack.ts")])
P("I09", "Schedules, log subscriptions and security notices reach their targets",
  "A schedule runs at the rate its name says and starts the function given, once, or nothing when none is given. Each function's whole log is sent on to the configured destination, or nowhere without one, and exactly the new failed findings of high or critical severity are sent to the topic given.",
  ["configurations", "inputs"], "each kind of schedule with and without a function, any number of functions, findings of every status, workflow state and severity",
  "Tests check construct counts, not rates, log groups or which findings match.",
  [IF + "scheduler.ts", IF + "stack/subscription.ts", IF + "security-rule.ts"], [("rates and targets", IF + "scheduler.ts"), ("log subscription", IF + "stack/subscription.ts"), ("finding pattern", IF + "security-rule.ts")])
P("I10", "Every canary checks its own target with just the access it needs",
  "A canary runs its own check on its schedule with the address, key or secret of the API or database it is for and its own variables, in the network only when asked or when it checks a database. Its role can write results and logs and read that secret and keys, nothing more, and its alarm fires at the first failed run and no other, going to the topic given.",
  ["configurations"], "each way of making a canary with default and own settings, APIs with any number of keys, stacks with and without network",
  "Tests snapshot two canaries; wrong address, role or alarm limits are invisible to them.",
  [IF + "canaries/canary.ts", IF + "canaries/canary-alarm.ts", IF + "canaries/canary-role.ts", IF + "canaries/url-canary.ts", IF + "canaries/database-canary.ts"],
  [("canary construction", IF + "canaries/canary.ts"), ("alarm", IF + "canaries/canary-alarm.ts"), ("rights", IF + "canaries/canary-role.ts"), ("api canary", IF + "canaries/url-canary.ts"), ("database canary", IF + "canaries/database-canary.ts")])
APPNOTE = "Covers every application directory of the repository. Packages that are not installed here (drivers, query builders) are seen as untyped calls known by name; code that only tests use is left out."
P("A01", "SQL texts are fixed: no request, message or row value becomes part of one",
  "The text of every SQL statement that an application sends to a database is made only of constants of the program, numbered placeholders and deployment settings. Values that come from requests, queue messages, other systems or earlier rows reach the database as bound parameters only.",
  ["inputs", "programs"], "every statement of every application, for every value that its functions can be given",
  "Tests send benign values; an injected text needs a hostile one, and most applications' tests need a database.",
  ["lib/digitraffic-common/src/database/database.ts", "marine/portactivity", "road/variable-signs"],
  [("statements as constants, prepared statements with bound values", "*/*/src/**/db/*.ts, */*/src/**/dao/*.ts")],
  "interprocedural text-provenance dataflow over the type-checked program, from every SQL sink back to constants", APPNOTE)
P("A02", "Each SQL statement gets exactly the values its placeholders name",
  "A statement with numbered placeholders is always given as many values as its highest placeholder and uses each of them; one with named placeholders is given an object with each name. Column lists match their values, and two prepared statements of one connection never share a name with different texts.",
  ["programs", "inputs"], "every statement with each of the value lists that can reach it",
  "A mismatch fails only when that statement runs on a real database, which most unit tests do not have.",
  ["marine/portactivity", "marine/voyage-plan-gateway", "road/variable-signs", "road/maintenance-tracking", "rail/rami"],
  [("prepared statements and their values", "*/*/src/**/db/*.ts, */*/src/**/dao/*.ts")],
  "SQL placeholder and column analysis over the provenance of each statement's text and value list", APPNOTE)
P("A03", "Read-only work only reads, and transactional work uses its own connection",
  "Work given to a read-only database connection never inserts, updates, deletes or locks, however deep in the call graph. Statements made inside a unit of work or transaction go through the connection that the unit was given, and not through another one around it.",
  ["programs", "schedules"], "every unit of work of every application and every function that it can call",
  "Tests run both endpoints against one writable database, and interleavings outside a transaction do not show in a single run.",
  ["lib/digitraffic-common/src/database/database.ts", "marine/portactivity", "marine/gofrep", "road/variable-signs"],
  [("inDatabaseReadonly, inDatabase and inTransaction", "lib/digitraffic-common/src/database/database.ts")],
  "call-graph reachability with statement-kind effects and connection-variable ownership", APPNOTE)
P("A04", "No asynchronous work is left behind",
  "Every operation that an application or the library starts is awaited, returned, or gathered before the function that started it settles, so a handler never answers while its work is still running or has failed unseen. A failure inside a guarded block is seen by that block's own handler, and a promise made by hand is settled on every outcome of the work it stands for.",
  ["schedules", "fault_sequences"], "every call that gives a promise, in every function of the applications and the library",
  "A lambda that answers early loses its work only when the runtime freezes it first; a test process just lets it finish.",
  ["marine/portactivity", "marine/marinecam", "road/maintenance-tracking", "lib/digitraffic-common/src"],
  [("awaited or returned calls", "*/*/src/lambda/**")],
  "typestate of promise values over the type-checked syntax tree (no floating, unobserved or truth-tested promise)", APPNOTE)
STACKNOTE = "Every stack class of every application is constructed symbolically with open configuration; stacks or functions packaged in a way the engine does not follow are left undecided and counted. Trusts the TypeScript checker, the engine's JavaScript semantics and the names of CDK constructs."
P("A05", "Every deployed function can start",
  "Every function that an application deploys is told to load a module that the build really produces and an entry that the module really exports. Every setting that its code cannot do without, at start-up or while handling an event, is in the environment it is deployed with.",
  ["configurations", "programs"], "every function of every application stack, every setting its code can reach, all configurations",
  "The tests build none of the applications; a misspelt directory or a missing setting shows only when the deployed function is first called.",
  ["*/*/src/*-stack.ts", "tools/esbuild/src/common.ts", "lib/digitraffic-common/src/utils/utils.ts"],
  [("function constructors and lambda environments", "lib/digitraffic-common/src/aws/infra/stack"), ("lambda sources", "*/*/src/lambda/**")],
  "symbolic construction of the stacks, interpretation of the build configuration, and call-graph reachability of required settings", STACKNOTE)
P("A06", "Endpoints pass their handlers the parameters they promise",
  "Every parameter and path variable that an endpoint declares reaches the code behind it, under the name that code reads and from the part of the request it was declared for. Every name that a handler reads from its event is passed by an endpoint that calls it.",
  ["configurations", "inputs"], "every method of every application API",
  "Handlers are tested with ready-made events, so nothing in the tests joins an endpoint to the handler it calls.",
  ["*/*/src/*-api*.ts", "lib/digitraffic-common/src/aws/infra/api"],
  [("integrations and request templates", "lib/digitraffic-common/src/aws/infra/api/integration.ts")],
  "symbolic construction of the APIs, abstract execution of request templates, and a query for the names handlers read", STACKNOTE)
P("A07", "Deployed functions may do what their code does",
  "Every deployed function is granted the access that its code uses on the resources it uses: reading secrets, sending to queues and topics, reading and writing stored objects. Every function that reaches the database is placed in the network from which the database can be reached.",
  ["configurations", "programs"], "every function of every application stack and every service call its code can reach",
  "The tests deploy nothing; a missing grant shows only as a refusal in production.",
  ["*/*/src/*-stack.ts", "lib/digitraffic-common/src/aws/infra/stack"],
  [("grants", "*/*/src/*-stack.ts"), ("service calls", "*/*/src/lambda/**")],
  "symbolic construction of the stacks, joined with call-graph reachability of the service calls of each function", STACKNOTE)
P("A08", "Endpoints that change data are guarded, and keys can be had",
  "Every endpoint that can change data asks for an API key or another authorization. HEAD is answered as GET is, with the same guard, no method is declared twice on a path, and every API that asks for keys has a usage plan for its stage with a key in it.",
  ["configurations"], "every method of every application API",
  "No test constructs the applications' APIs.",
  ["*/*/src/*-api*.ts", "lib/digitraffic-common/src/aws/infra/usage-plans.ts"],
  [("methods", "*/*/src/*-api*.ts"), ("usage plans", "lib/digitraffic-common/src/aws/infra/usage-plans.ts")],
  "symbolic construction of the APIs, with Boolean implication over the guards of the extracted methods", STACKNOTE)
P("A09", "A queued message whose handling fails is not lost",
  "A queue hides a message for at least as long as the function that handles it may run, and tries it at least once before it is set aside. When work on a message of a queue with a dead-letter queue fails, the failure reaches the queue: per-message failures are both reported by the handler and asked for by the trigger, and no failure ends in a handler that swallows it.",
  ["fault_sequences", "configurations"], "every queue-triggered function and every awaited step of its handling",
  "Lost messages need a failing database, store or queue at a chosen step; the applications' tests are not among those that run.",
  ["*/*/src/*-stack.ts", "*/*/src/lambda/**", "lib/digitraffic-common/src/aws/runtime/s3.ts"],
  [("queue triggers", "*/*/src/*-stack.ts"), ("handlers", "*/*/src/lambda/**")],
  "symbolic construction of the stacks for queues and triggers, and an exception-flow analysis of the handlers", STACKNOTE)
P("A10", "A list given to a statement is a list with something in it",
  "Wherever an application's statement takes a list of values, what is given is the whole list, in the place that expects one. The statement is run only when the list has something in it, since an empty list is not valid in it; an empty input is answered without the statement.",
  ["inputs", "histories"], "every list placeholder of every statement and every way control reaches it",
  "The failing input is the empty one at the end of a chain of callers, in applications whose tests are not among those that run.",
  ["*/*/src/dao/**", "*/*/src/db/**", "*/*/src/service/**", "*/*/src/lambda/**"],
  [("statements with lists", "*/*/src/dao/**"), ("guards", "*/*/src/service/**")],
  "interprocedural non-emptiness analysis (types, derivations, dominating conditions) over resolved call sites", APPNOTE)
P("A11", "A mark of progress moves only after the work it stands for",
  "The time of the latest update of data or of a camera's image, the version that a copy has reached and the time up to which measurements are held are moved only after the data they stand for is stored, or in one transaction with it; the time at which a command was sent, only after it was sent. When the work fails or is cut short, its mark stays where it was and the work is done again; the times of mere checks are not held to this.",
  ["crash_points", "fault_sequences"], "every statement that moves a mark, every path to it and every failure of the work around it",
  "Data is lost for good only when the process dies, or one store of many fails, between the mark and the work; no test stops there, and the applications' tests are not among those that run.",
  ["*/*/src/service/**", "*/*/src/lambda/**", "lib/digitraffic-common/src/database/last-updated.ts"],
  [("marks and the work around them", "marine/winter-navigation/src/service/data-updater.ts"), ("last-updated times", "lib/digitraffic-common/src/database/last-updated.ts")],
  "effect classification over the call graph, with order and failure-flow analysis around every mark", APPNOTE)
P("A12", "A saved row holds each value in its own column, new or replaced",
  "Every value that is saved goes to the column it belongs to. Where a save replaces a row that is there, each column it writes gets the very value a new row would get and a change of any such column is saved. An object that was marked as deleted is not deleted any more once it is saved again.",
  ["inputs", "histories"], "every statement that saves rows, its columns, placeholders, values and what it does with a row that is there",
  "A wrong column shows only when a row is saved a second time or read back from a live database; the applications' tests are not among those that run.",
  ["*/*/src/dao/**", "*/*/src/db/**"],
  [("saving statements and their values", "marine/portactivity/src/dao/timestamps.ts"), ("replaced rows", "marine/winter-navigation/src/db/locations.ts")],
  "statement parsing (columns, placeholders, conflict clauses) joined with the provenance of the values given", APPNOTE)
P("A13", "A read gives live rows, each value under its own name",
  "What is marked as deleted is in no answer, however it is asked for; a row joined by its identity to describe another is exempt. Every value that is read is given under its own name, in the rows of a statement and in the objects that are made of them. The rows have every column that their readers use.",
  ["histories", "inputs"], "every statement that reads rows, its tables, conditions and output names, and every object made of another's members",
  "Shows only with deleted rows in a live database or in an answer compared value by value; the applications' tests are not among those that run.",
  ["*/*/src/dao/**", "*/*/src/db/**", "*/*/src/service/**"],
  [("reading statements", "marine/winter-navigation/src/db/vessels.ts"), ("objects made of rows", "marine/winter-navigation/src/service/vessel-service.ts")],
  "statement parsing (tables, conditions, output columns) joined with the types and uses of the readers", APPNOTE)
P("D05", "The passenger-information database is left as it was found",
  "Each unit of work of the passenger information service gets a connection, and that connection goes back to its pool exactly once on every exit. A transaction is committed only after all of its work succeeded and rolled back when any of it fails, and the failure reaches the caller.",
  ["fault_sequences", "schedules"], "every outcome of opening, beginning, working, committing, rolling back and releasing",
  "Leaks and half-done transactions need a failure at a chosen point of a MySQL session, which no test here can open.",
  ["rail/rami/src/util/database.ts"], [("connection and transaction wrappers", "rail/rami/src/util/database.ts")])
FOLD = IGVN + ", with constant folding of the extracted values on each input class"
FNOTE = NOTE + " Shapes and input classes are enumerated up to the sizes given in the evidence; a value the folding cannot decide is left undecided, not alarmed."
P("D06", "A last-updated time is read back under the key it was written with",
  "The time of the latest update of a kind of data, with a subtype or without, is read from the same table, row and column that its update writes. An update creates the row or changes only that row's time, and reading a time that was never written gives none.",
  ["histories", "inputs"], "each kind of time, with and without subtype, first and later updates",
  "Needs a live database and both halves; no unit test has them.",
  [LIB + "database/last-updated.ts"], [("matching select and upsert statements", LIB + "database/last-updated.ts")],
  "SQL statement parsing and key/column agreement over the value graph")
P("U01", "Geometries keep their shape, order and distance",
  "A geometry written as text keeps each polygon, ring and position apart and in order, longitude before latitude; one that cannot be written is logged and empty, or refused. Distances are those of the sphere for every valid pair of positions, zero coordinates included, and malformed positions are refused.",
  ["inputs"], "points, lines, polygons with holes and several polygons; positions of every quadrant, with zeros and heights",
  "Tests measure one distance and have no polygon with a hole, no second polygon and no zero coordinate.",
  [LIB + "utils/geometry.ts"], [("text writers", LIB + "utils/geometry.ts"), ("distances", LIB + "utils/geometry.ts")], FOLD, FNOTE)
P("U02", "Identifiers, dates and periods are accepted exactly when they are valid",
  "A ship's IMO number is accepted exactly when it is a whole seven-digit number whose check digit agrees, an MMSI when it is a whole nine-digit number, a Finnish port code when it has its five letters, a month or year when within its limits. A text becomes a date or a number exactly when it is one, otherwise it is reported; dates are written in UTC and periods are the end minus the start.",
  ["inputs"], "each value of each digit, every limit and both its sides, fractions, texts that are and are not numbers or dates",
  "Tests try a handful of identifiers; a wrong weight or limit shows only at particular digits.",
  [LIB + "marine/id_utils.ts", LIB + "types/validator.ts", LIB + "utils/date-utils.ts", LIB + "utils/zod-utils.ts"],
  [("check digit", LIB + "marine/id_utils.ts"), ("conversions", LIB + "utils/zod-utils.ts")], FOLD, FNOTE)
P("U03", "Settings and lists are read as they are",
  "A setting that is present, even empty, is given as it is; a missing one is an error, a marked failure or the alternative, as the caller chose. Lists are compared as sets, their first and last items are taken by position or by key without reordering the list, and omitting keys leaves out just those at every depth and changes no source.",
  ["inputs", "configurations"], "missing, empty and set variables; lists with repeats, empty and absent lists; nested data",
  "Tests use present variables, sorted lists and flat data.",
  [LIB + "utils/utils.ts"], [("environment accessors", LIB + "utils/utils.ts"), ("list helpers", LIB + "utils/utils.ts")], FOLD, FNOTE)
P("U04", "A stop watch tells the time each task ran",
  "After any history of starts, stops and resets, a task's duration is the sum of its finished periods and of the time since its latest start while it runs. Other tasks never change it, the log has each task once with its duration, and stopping a task that was never started is an error.",
  ["histories", "inputs"], "histories of starts, stops and resets of a named and the unnamed task, with any clock readings",
  "Tests run a few histories with sleeps; restarts, resets and interleaved tasks are combinations they do not reach.",
  [LIB + "utils/stop-watch.ts"], [("task periods", LIB + "utils/stop-watch.ts")], "typestate exploration over the abstract interpreter with symbolic clock readings", FNOTE)
P("U05", "Notifications, lead times and uploads are done as asked",
  "A chat notification goes once with its text to the address given, and a failed one is logged and does not fail its sender. Lead times are logged exactly when they are whole numbers, each as its own kind, and an upload stores the body once under the given name with the given rights and type, its failure reaching the caller.",
  ["fault_sequences", "inputs"], "every outcome of the calls made, and every kind of number",
  "Tests mock the services as working.",
  [LIB + "utils/slack.ts", LIB + "utils/lead-time-logging.ts", LIB + "aws/runtime/s3.ts"], [("caught failures", LIB + "utils/slack.ts"), ("lead times", LIB + "utils/lead-time-logging.ts"), ("upload", LIB + "aws/runtime/s3.ts")])
P("I11", "Answers made by the gateway itself are complete and consistent",
  "A static resource answers GET and HEAD with status 200, the content given, its media type and exactly its headers, each also declared by the method, with an API key and CORS unless they are turned off. The older integrations tell success and each failure apart by message, with the CORS header unless turned off and own settings used.",
  ["configurations"], "each combination of flags, header sets and own settings, both ways of making a static answer",
  "No test builds a static resource with its own headers or with keys turned off.",
  [IF + "api/static-integration.ts", IF + "api/responses.ts", LIB + "aws/types/errors.ts"], [("static integration", IF + "api/static-integration.ts"), ("older responses", IF + "api/responses.ts")])
P("N01", "A response body decodes to exactly what was put in",
  "For every body, decoding and decompressing what a response carries gives back the same bytes as were put in.",
  ["inputs"], "every body, of any length and any characters",
  "Tests compare a few short bodies.",
  [LIB + "aws/types/lambda-proxy-types.ts", LIB + "aws/types/lambda-response.ts"], [("encoding", LIB + "aws/types/lambda-proxy-types.ts")])
P("N02", "Concurrent work on the same data ends as some serial order would",
  "When several functions update the same rows at once, the state left is one that some order of the same updates, one after the other, would have left.",
  ["schedules", "histories"], "every interleaving of units of work",
  "Tests run one unit of work at a time.",
  ["*/*/src/dao/**", LIB + "database/database.ts"], [("units of work", LIB + "database/database.ts")])
P("N03", "A message delivered twice leaves the state of one delivery",
  "Handling the same queued message again, after success or after a failure part way, leaves the stored data as handling it once does.",
  ["histories", "crash_points"], "every message and every point at which its first handling may have ended",
  "Queues deliver at least once; tests deliver once.",
  ["*/*/src/lambda/**", "*/*/src/dao/**"], [("writes", "*/*/src/dao/**")])
P("N04", "Published documents match the models their endpoints declare",
  "Every document that an endpoint answers with conforms to the schema that the same endpoint publishes for it.",
  ["inputs", "histories"], "every state of the data and every request",
  "Tests compare a few rows with a few fields.",
  ["*/*/src/model/**", "*/*/src/*-api*.ts"], [("models", "*/*/src/*-api*.ts")])
P("N05", "Functions finish within their time and memory",
  "Every function, for every amount of data it may meet, finishes before its timeout and within its memory.",
  ["inputs", "configurations"], "every amount of data",
  "Tests use small data.",
  ["*/*/src/lambda/**"], [("functions", "*/*/src/lambda/**")])

NA = {
 "N01": "It is an equation over the results of node's Buffer and zlib for unbounded inputs; a static rule sees which of them are called on what (P01, P02 decide that), not that their outputs invert each other.",
 "N02": "It depends on the isolation level and locking of the database server and on rows that exist only at run time; the source shows which connection a statement uses (A03) but not how statements of two sessions interleave inside the server.",
 "N03": "Whether a repeated insert is absorbed depends on unique constraints of the database schema, and the schema is not in this repository.",
 "N04": "Rows are typed by assertion where they leave the driver, so no sound static argument over this source bounds the shape of what is answered.",
 "N05": "Running time and memory depend on the amount of stored data and on external services, which no static bound in this source limits.",
}
