package zhandlers

import "github.com/madkins23/go-slog/internal/zcore"

func newPlan() any { return &Plan{} }

var (
	realH   = []string{"handlers/flash", "handlers/sloggy", "infra", "replace"}
	stubH   = []string{"destination (io.Writer)", "default logger", "goroutine scheduler", "sync.Mutex and sync.Pool", "clock"}
	assumeH = []string{"the destination is an io.Writer that is not safe for concurrent use by itself",
		"attribute values are not changed by their owners while they are being logged"}
	ruleH = "every case is a plan (options, logger tree, per-client operations, faults) and a schedule, both derived from VERIF_SEED and the index of the execution; non-trivial: at least two hand-overs between simulated threads; distinct: by hash of the sequence of (thread, code site) at hand-overs and of the recorded history"
)

func handlerProp(id string, quick, thorough int, pf profile) *zcore.Prop {
	return &zcore.Prop{ID: id, Gen: pf.gen, New: newPlan, Run: Run, Quick: quick, Thorough: thorough, Length: 4000, MaxPts: 3_000_000,
		Rule: ruleH, Real: realH, Stub: stubH, Assume: assumeH}
}

// Props of the handlers binary.
var Props = []*zcore.Prop{
	handlerProp("C01", 24000, 1200000, profile{clients: [2]int{2, 4}, ops: [2]int{2, 5}, derive: [2]int{0, 3}, pDerive: 0.1, pFault: 0.3, pTwo: 0.2, pBig: 0.1, pReplace: 0.15, pGroup: 0.15, pSkew: 0.05}),
	handlerProp("C02", 24000, 1200000, profile{clients: [2]int{2, 4}, ops: [2]int{3, 7}, derive: [2]int{1, 6}, pDerive: 0.5, pReplace: 0.5, pBig: 0.05, pGroup: 0.1}),
	handlerProp("C03", 24000, 1200000, profile{clients: [2]int{2, 3}, ops: [2]int{3, 7}, derive: [2]int{0, 4}, pDerive: 0.15, pFail: 0.08, pTwo: 0.4, pReplace: 0.3, pBig: 0.15, pGroup: 0.25, pSkew: 0.05}),
	handlerProp("C04", 24000, 1200000, profile{clients: [2]int{1, 3}, ops: [2]int{3, 8}, derive: [2]int{0, 4}, pDerive: 0.1, pFail: 0.15, pFault: 0.9, pTwo: 0.3, pReplace: 0.3, replaceOf: []string{"fail-time", "fail-level", "fail-msg", "fail-source", "drop", "rename", "bare"}, pBig: 0.05, pGroup: 0.15}),
	handlerProp("C05", 24000, 1200000, profile{clients: [2]int{2, 4}, ops: [2]int{3, 8}, derive: [2]int{0, 4}, pDerive: 0.15, pLevel: 0.3, dynamic: 0.8, pGroup: 0.05}),
	handlerProp("C06", 24000, 1200000, profile{clients: [2]int{2, 3}, ops: [2]int{2, 5}, derive: [2]int{0, 3}, pDerive: 0.2, pRelog: 0.35, pFail: 0.03, pFault: 0.3, pTwo: 0.2, pReplace: 0.2, pGroup: 0.2}),
	handlerProp("C07", 24000, 1200000, profile{clients: [2]int{2, 4}, ops: [2]int{1, 4}, pDerive: 0.2, newInRun: true, pReplace: 0.2, pGroup: 0.1}),
}
