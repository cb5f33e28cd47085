package main

// Plans lists the checks.
var Plans = map[string]Plan{
	"C01": {
		Rule: "one case per terminal identity and transport behaviour (V) and per emitted frame racing with others on one connection (S); distinct by phone, version, serial base and partial-write mode",
		Min:  500,
		Specs: []Spec{
			{Env: "V", Scenario: "c01v", Q: 30000, T: 300000, WQ: 4, WT: 6},
			{Env: "S", Scenario: "c01s", Q: 2000, T: 20000, WQ: 2, WT: 4, Yield: 30},
		},
	},
	"C04": {
		Rule: "one case per pipelined request sequence on one connection; distinct by the sequence of message ids",
		Min:  100,
		Specs: []Spec{
			{Env: "V", Scenario: "c04", Q: 160, T: 3000, WQ: 5, WT: 6, Yield: 20},
			{Env: "S", Scenario: "c04", Q: 6, T: 60, WQ: 1, WT: 2},
		},
	},
	"C02": {
		Rule: "one case per registration body and per location report compared field by field; distinct by content",
		Min:  500,
		Specs: []Spec{
			{Env: "V", Scenario: "c02", Q: 18000, T: 180000, WQ: 5, WT: 6},
			{Env: "S", Scenario: "c02", Q: 1500, T: 15000, WQ: 1, WT: 2},
		},
	},
	"C03": {
		Rule: "one case per corrupted frame and per noise burst; distinct by bytes",
		Min:  500,
		Specs: []Spec{
			{Env: "V", Scenario: "c03", Q: 800, T: 30000, WQ: 3, WT: 6},
			{Env: "V", Scenario: "c03sum", Q: 12, T: 600, WQ: 1, WT: 2},
			{Env: "S", Scenario: "c03", Q: 3, T: 30, WQ: 1, WT: 2},
		},
	},
	"C05": {
		Rule: "one case per sequential registration decision compared with the model, and per concurrent history checked for linearizability; distinct by decision / by operations, results and completion order",
		Min:  300,
		Specs: []Spec{
			{Env: "V", Scenario: "c05seq", Q: 250, T: 2500, WQ: 2, WT: 3},
			{Env: "V", Scenario: "fleet", Q: 6000, T: 30000, WQ: 1, WT: 2},
			{Env: "S", Scenario: "fleet", Q: 2500, T: 7000, WQ: 1, WT: 1},
			{Env: "V", Scenario: "lin05", Q: 2500, T: 25000, WQ: 4, WT: 6, Yield: 40},
			{Env: "S", Scenario: "lin05", Q: 300, T: 3000, WQ: 1, WT: 2, Yield: 40},
		},
	},
	"C10": {
		Rule: "one case per concurrent history (registrations, authentications, removals, listings) checked for linearizability; distinct by operations, results and completion order",
		Min:  300,
		Specs: []Spec{
			{Env: "V", Scenario: "lin10", Q: 2500, T: 25000, WQ: 4, WT: 6, Yield: 40},
			{Env: "V", Scenario: "c05seq", Q: 100, T: 1000, WQ: 1, WT: 2},
			{Env: "V", Scenario: "fleet", Q: 6000, T: 30000, WQ: 1, WT: 2},
			{Env: "S", Scenario: "fleet", Q: 2500, T: 7000, WQ: 1, WT: 1},
			{Env: "S", Scenario: "lin10", Q: 250, T: 2500, WQ: 2, WT: 2, Yield: 40},
		},
	},
	"C06": {
		Rule: "one case per refused code; distinct by version and code",
		Min:  200,
		Specs: []Spec{
			{Env: "V", Scenario: "c06", Q: 2500, T: 25000, WQ: 5, WT: 6},
			{Env: "S", Scenario: "c06", Q: 12, T: 120, WQ: 1, WT: 2},
		},
	},
	"C07": {
		Rule: "one case per refused message; distinct by kind, reason for being unregistered, version, connection history and size",
		Min:  200,
		Specs: []Spec{
			{Env: "V", Scenario: "c07", Q: 7000, T: 70000, WQ: 5, WT: 6},
			{Env: "S", Scenario: "c07", Q: 60, T: 600, WQ: 1, WT: 2},
		},
	},
	"C08": {
		Rule: "one case per removal in a history, per expiry timeline compared with a fresh device, and per concurrent history checked for linearizability",
		Min:  200,
		Specs: []Spec{
			{Env: "V", Scenario: "c08", Q: 4000, T: 40000, WQ: 3, WT: 4},
			{Env: "V", Scenario: "c08race", Q: 500, T: 10000, WQ: 2, WT: 4, Yield: 10},
			{Env: "V", Scenario: "c08exp", Q: 2000, T: 20000, WQ: 3, WT: 4},
			{Env: "V", Scenario: "lin08", Q: 2000, T: 20000, WQ: 4, WT: 6, Yield: 40},
			{Env: "S", Scenario: "lin08", Q: 80, T: 2000, WQ: 1, WT: 2, Yield: 40},
			{Env: "S", Scenario: "c08", Q: 100, T: 1000, WQ: 1, WT: 2},
		},
	},
	"C09": {
		Rule: "one case per report compared after its acknowledgement, and per device observed by concurrent readers; distinct by report content",
		Min:  1000,
		Specs: []Spec{
			{Env: "V", Scenario: "c09seq", Q: 60, T: 600, WQ: 3, WT: 4},
			{Env: "V", Scenario: "c09con", Q: 25, T: 300, WQ: 3, WT: 4, Yield: 30},
			{Env: "S", Scenario: "c09seq", Q: 6, T: 60, WQ: 1, WT: 1},
			{Env: "S", Scenario: "c09con", Q: 10, T: 100, WQ: 1, WT: 2, Yield: 30},
			{Env: "V", Scenario: "c09long", Q: 1, T: 10, WQ: 1, WT: 2},
		},
	},
	"C11": {
		Rule: "one case per reconnect/removal history with commands checked on all connections, and per device moved between connections under concurrent commands; distinct by history",
		Min:  60,
		Specs: []Spec{
			{Env: "S", Scenario: "c11", Q: 4, T: 120, WQ: 3, WT: 4},
			{Env: "S", Scenario: "c11idle", Q: 16, T: 48, WQ: 1, WT: 2},
			{Env: "S", Scenario: "c11con", Q: 4, T: 100, WQ: 1, WT: 2, Yield: 30},
		},
	},
	"C12": {
		Rule: "one case per history of commands, fragments and refusals on a connection, per block of 500 acknowledged fragments, per set of concurrent draws at the wrap-around and per 70000-command hammer; distinct by history or numbers seen",
		Min:  100,
		Specs: []Spec{
			{Env: "S", Scenario: "c12seq", Q: 40, T: 400, WQ: 2, WT: 2},
			{Env: "S", Scenario: "c12ham", Q: 1, T: 12, WQ: 1, WT: 2},
			{Env: "V", Scenario: "c12frag", Q: 10, T: 100, WQ: 3, WT: 4},
			{Env: "M", Scenario: "m12", Q: 6000, T: 60000, WQ: 2, WT: 2},
		},
	},
	"C13": {
		Rule: "one case per parameter list compared on the wire, per refused list, per set/query round at the terminal; distinct by content",
		Min:  300,
		Specs: []Spec{
			{Env: "S", Scenario: "c13", Q: 80, T: 800, WQ: 3, WT: 2},
			{Env: "X", Scenario: "c13sim", Q: 20, T: 200, WQ: 3, WT: 4, Sim: true, Custom: c13sim},
			{Env: "X", Scenario: "c13e2e", Q: 10, T: 100, WQ: 2, WT: 2, Sim: true, Custom: c13e2e},
		},
	},
	"C20": {
		Rule: "one case per batch of commands answered and per refused authentication; distinct by version and command sequence",
		Min:  60,
		Specs: []Spec{
			{Env: "X", Scenario: "c20", Q: 5, T: 50, WQ: 3, WT: 8, Sim: true, Custom: c20},
			{Env: "X", Scenario: "c20multi", Q: 2, T: 20, WQ: 2, WT: 4, Sim: true, Custom: c20multi},
			{Env: "X", Scenario: "c20long", Q: 40, T: 240, WQ: 1, WT: 2, Sim: true, Custom: c20long},
		},
	},
	"C14": {
		Rule: "one case per completed transfer compared with the effect of the whole message; distinct by message type, size, number of fragments and serial number",
		Min:  300,
		Specs: []Spec{
			{Env: "V", Scenario: "c14", Q: 6, T: 120, WQ: 3, WT: 4, Yield: 20},
			{Env: "V", Scenario: "c14", Q: 100, T: 4000, WQ: 3, WT: 6},
			{Env: "V", Scenario: "c14", Q: 30, T: 1000, WQ: 1, WT: 2, Debug: true},
			{Env: "V", Scenario: "c14run", Q: 300, T: 8000, WQ: 2, WT: 3, Yield: 20},
			{Env: "S", Scenario: "c14", Q: 5, T: 100, WQ: 1, WT: 2},
		},
	},
	"C15": {
		Rule: "one case per distinct hostile frame of a registered peer and per bystander check between expiries; bystander checks are counted in monitor_events",
		Min:  150,
		Specs: []Spec{
			{Env: "V", Scenario: "c15", Q: 1200, T: 12000, WQ: 3, WT: 4},
			{Env: "V", Scenario: "c15", Q: 400, T: 4000, WQ: 2, WT: 2, Debug: true},
			{Env: "V", Scenario: "c15exp", Q: 400, T: 4000, WQ: 2, WT: 3},
			{Env: "V", Scenario: "c15many", Q: 12000, T: 40000, WQ: 1, WT: 1},
			{Env: "S", Scenario: "c15many", Q: 2500, T: 8000, WQ: 1, WT: 1},
			{Env: "X", Scenario: "c15fd", Q: 8, T: 100, WQ: 1, WT: 2, Custom: c15fd},
			{Env: "S", Scenario: "c15", Q: 200, T: 3000, WQ: 2, WT: 2},
			{Env: "S", Scenario: "c15", Q: 50, T: 1500, WQ: 1, WT: 1, Debug: true},
		},
	},
	"C16": {
		Rule: "one case per device life under the race detector with everything else going on, plus the cases of the reused concurrent scenarios; distinct by device and ending, or by history",
		Min:  300,
		Specs: []Spec{
			{Env: "V", Scenario: "c16", Q: 1500, T: 40000, WQ: 2, WT: 4, Race: true},
			{Env: "V", Scenario: "c16", Q: 200, T: 4000, WQ: 1, WT: 2, Race: true, Yield: 20},
			{Env: "V", Scenario: "c16", Q: 400, T: 4000, WQ: 1, WT: 1, Race: true, Debug: true},
			{Env: "S", Scenario: "c16", Q: 130, T: 1500, WQ: 1, WT: 2, Race: true},
			{Env: "S", Scenario: "c16", Q: 15, T: 200, WQ: 1, WT: 1, Race: true, Debug: true, Yield: 20},
			{Env: "V", Scenario: "lin10", Q: 100, T: 2000, WQ: 1, WT: 2, Race: true, Yield: 30},
			{Env: "V", Scenario: "c09con", Q: 3, T: 60, WQ: 1, WT: 1, Race: true, Yield: 20},
			{Env: "V", Scenario: "c15", Q: 60, T: 1500, WQ: 1, WT: 1, Race: true},
			{Env: "S", Scenario: "c15", Q: 25, T: 500, WQ: 1, WT: 1, Race: true},
			{Env: "S", Scenario: "c11con", Q: 2, T: 30, WQ: 1, WT: 1, Race: true},
		},
	},
	"C17": {
		Rule: "one case per connection driven into a state and ended in some way; distinct by state and ending (and endless-frame run)",
		Min:  300,
		Specs: []Spec{
			{Env: "V", Scenario: "c17", Q: 20, T: 800, WQ: 2, WT: 3},
			{Env: "V", Scenario: "c17mem", Q: 3, T: 30, WQ: 1, WT: 1},
			{Env: "S", Scenario: "c17", Q: 6, T: 120, WQ: 1, WT: 2},
			{Env: "S", Scenario: "c17mem", Q: 1, T: 10, WQ: 1, WT: 1},
			{Env: "S", Scenario: "c17churn", Q: 2500, T: 25000, WQ: 1, WT: 1},
			{Env: "V", Scenario: "c17lives", Q: 24000, T: 240000, WQ: 1, WT: 1},
			{Env: "S", Scenario: "c17lives", Q: 9000, T: 90000, WQ: 1, WT: 1, GCTrace: true},
		},
	},
	"C18": {
		Rule: "one case per life of a device between registration and removal; distinct by the timeline of its messages",
		Min:  200,
		Specs: []Spec{
			{Env: "V", Scenario: "c18", Q: 250, T: 3000, WQ: 5, WT: 6},
			{Env: "V", Scenario: "c18", Q: 15, T: 300, WQ: 2, WT: 2, Yield: 20},
			{Env: "S", Scenario: "c18", Q: 0, T: 2, WQ: 0, WT: 1},
		},
	},
	"C19": {
		Rule: "one case per message round trip (fields to bytes, bytes to fields, bytes again) plus one per primitive vector and per sweep over all 65536 header attribute words; distinct by bytes",
		Min:  20000,
		Specs: []Spec{
			{Env: "M", Scenario: "m19msg", Q: 150000, T: 1500000, WQ: 5, WT: 6},
			{Env: "M", Scenario: "m19hdr", Q: 20, T: 200, WQ: 1, WT: 2},
			{Env: "M", Scenario: "m19prim", Q: 80000, T: 800000, WQ: 2, WT: 4},
		},
	},
	"C21": {
		Rule: "one case per logging configuration whose full transcript (frames, closings, directory, locations after every step) was compared with the reference; distinct by configuration and script",
		Min:  8,
		Specs: []Spec{
			{Env: "X", Scenario: "c21", Q: 2, T: 20, WQ: 1, WT: 2, Custom: c21},
		},
	},
	"C22": {
		Rule: "one case per logging configuration (level, format, destinations, rolling limits) whose complete output was read back and compared with the traffic; distinct by configuration",
		Min:  8,
		Specs: []Spec{
			{Env: "X", Scenario: "c22", Q: 3, T: 20, WQ: 1, WT: 2, Custom: c22},
		},
	},
}
