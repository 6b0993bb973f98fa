TECH_SEQ = "symbolic execution of the Go SSA, assertions decided by an SMT solver (z3), counterexamples replayed natively"
TECH_CONC = "symbolic execution of the Go SSA over inputs and bounded schedules, assertions decided by an SMT solver (z3)"
TECH = {c: TECH_CONC for c in ("C09","C11","C14","C15","C16","C17","C18","C29","C31","C32","C35","C36","C38")}
COMMON = "Holds for every input within the bounds in the evidence; the engine's stubs (logging, metrics, transport, clock) and the protobuf encoding model listed in DESIGN.md are trusted; strings are assumed valid UTF-8."
NOTES = {
"C01":"All filter/attribute combinations within the stated counts and string lengths, with all 2^64 doubles, are decided exactly.",
"C02":"All valid timestamps to the nanosecond; the known inversion is listed in known-findings.txt and any other deviation is reported.",
"C03":"All 2^96 start/end values, set or unset, and invocations mixing valid and invalid pools.",
"C04":"All 2^96 values of both timestamps, any clock value 2017..2100 and TTL up to 10 years.",
"C05":"All id strings up to the bound, success and failure of storage, malformed requests.",
"C06":"All id lists up to the bound over arbitrary bytes, all limits up to the bound, both RPCs and both replicators.",
"C07":"Every subset of failing updates for every number of ids up to the bound.",
"C08":"Every subset of failing/empty ids up to the bound.",
"C09":"All arrival patterns and all schedules within the delay bound.",
"C10":"All tickets/pools/inactive subsets within the bound, against an independent membership oracle.",
"C11":"All interleavings of the snapshot with creation, activation, deactivation and expiry steps within the bound.",
"C12":"Symbolic ticket and profile sizes; chunk sizes computed on the wire-size model of protobuf.",
"C13":"Symbolic profile contents within the stated counts.",
"C14":"All schedules within the delay bound, MMF streams that end normally or in an error.",
"C15":"All schedules within the delay bound, both settings of OM_MATCH_TICKET_DEACTIVATION_WAIT.",
"C16":"All shapes of MMF output within the bound, including empty, nil-part and error outcomes.",
"C17":"All batch patterns and schedules within the bound.",
"C18":"All update sequences within the bound from an arbitrary cache state.",
"C19":"All creation/expiration instants and TTLs for arbitrary cache contents within the bound.",
"C20":"Encoding to and decoding from the Redis stream entry, all keys and values within the bound; the redigo pool code is executed, the server is modelled.",
"C21":"All reply patterns (ok, error, wrong type, short, connection failure) within the bound.",
"C22":"All poll histories within the bound over a modelled stream.",
"C23":"All call sequences and fault patterns within the bound, on the real redigo pool code.",
"C24":"Every clock value and TTL within the bound.",
"C25":"All update batches and clock steps within the bound.",
"C26":"Every string up to the bound, both replicators.",
"C27":"All chunkings within the bound.",
"C28":"All pool contents within the bound for the three sample functions.",
"C29":"All schedules within the bound, with the batch size boundary included.",
"C30":"All level strings up to the bound.",
"C31":"All operation histories within the bound through handlers, queue and cache.",
"C32":"All interleavings of the two instances' operations within the bound.",
"C33":"The generated gateway (both copies), grpc-gateway's mux and om-core's start() are executed; JSON is modelled as a faithful encoding and replayed on the real one.",
"C34":"Every setting, one at a time (any text within the bound, any 32-bit number, switches, durations) and all together; viper's own lookup code and the process environment are modelled, and counterexamples are replayed on the real ones.",
"C35":"The instruments are stand-ins that add up what the code gives them (replacing the OpenTelemetry SDK); attributes are not decided. All cache contents, function outcomes, watches and calls within the bounds.",
"C36":"All function speeds, failures and caller behaviours within the bounds, under virtual time.",
"C37":"Redigo's dial, authentication and protocol code is executed over a byte-level connection; hosts and ports are same or different, users and passwords are arbitrary letters.",
"C39":"main() is executed from its flags on; all random decisions and stream ends within the bounds, under virtual time; om-core, its transport and the OpenTelemetry SDK are stand-ins (the real ones on replay).",
"C38":"All rates, durations and outcomes within the bounds, under virtual time; random choices of the frontend are symbolic.",
}
NA = {

}
