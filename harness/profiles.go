package main

// plan is what a check does: batches of random scenarios and specification models.
type plan struct {
	profiles []Profile
	n        int // scenarios of a quick run, for each profile
	race     bool
	hooks    bool
	models   []model
	special  []func(c *check) error
}

// model is a module whose behaviours TLC enumerates and the harness replays.
type model struct {
	module  string
	config  string // if it is not named like the module
	quick   int    // a quick run takes one part of so many
	deep    int    // a thorough run takes one part of so many
	ordered bool   // behaviours come with the order of their steps
	silent  bool   // nothing to replay
	says    string // what the invariants say
}

func with(f func(p *Profile)) Profile {
	p := base()
	f(&p)
	return p
}

var (
	all4 = []string{"merge", "replace", "delete", "combine"}
)

// the models, each with what its invariants say
var (
	mActions  = model{module: "MC_Actions", quick: 10, deep: 1, says: "what is not selected stays; replaced, merged, deleted as told; a second application changes nothing more"}
	mCombine  = model{module: "MC_Combine", quick: 4, deep: 1, says: "the result of combining any two values, its failures, both orders"}
	mOrder    = model{module: "MC_Order", quick: 100, deep: 12, says: "overlays apply in the documented order, each to the documents it is for, once"}
	mQuery    = model{module: "MC_Query", quick: 10, deep: 1, says: "a query selects the places an independent definition selects, in document order"}
	mMissing  = model{module: "MC_Missing", quick: 30, deep: 8, says: "what happens where a query finds nothing: nothing, or the value at the inject path"}
	mDq       = model{module: "MC_Dq", quick: 10, deep: 1, says: "an overlay applies if all conditions of a group hold"}
	mLayout   = model{module: "MC_Layout", quick: 20, deep: 2, says: "which files a run reads and where each result goes"}
	mSettings = model{module: "MC_Settings", quick: 30, deep: 2, says: "each setting has the value of the first source that gives it"}
	mMarkers  = model{module: "MC_Markers", quick: 20, deep: 2, says: "markers are replaced by what the rest of the specification says they stand for"}
	mStyle    = model{module: "MC_Style", quick: 60, deep: 6, says: "every set of styles and every indent keeps the data and is what the file then has"}
	mComments = model{module: "MC_Comments", quick: 5, deep: 1, says: "every comment that no overlay removes or replaces is there once, none with removeComments"}
	mDecode   = model{module: "MC_Decode", quick: 100, deep: 8, says: "an instructions file with any one or two fields of any shape is rejected or understood as documented"}
	mAdHoc    = model{module: "MC_AdHoc", quick: 10, deep: 1, says: "a path and an overlay on the command line do what an instructions file with them does"}
	mStream   = model{module: "MC_Stream", quick: 60, deep: 4, says: "what is left of the documents comes out in order, emptied documents and files do not"}
	mCopies   = model{module: "MC_Copies", quick: 3, deep: 1, says: "a change to one of the places of a value leaves the other places and later uses alone"}
	mValues   = model{module: "MC_Values", quick: 5, deep: 1, says: "values files merge from left to right"}
	mConc     = model{module: "MC_Conc", quick: 60, deep: 15, ordered: true, says: "in every order of the steps: complete files only, once, exit status, same contents"}
	mConcRace = func() model { m := mConc; m.quick, m.deep = 180, 60; return m }()
	mConcAll  = model{module: "MC_Conc", config: "MC_ConcPlain", quick: 1, deep: 1, silent: true, says: "all interleavings of three files of every kind: the same, and the run ends"}
)

var plans = map[string]plan{
	"C01": {models: []model{mActions}, n: 900, profiles: []Profile{
		with(func(p *Profile) {
			p.Depth = 4
			p.Aliases = 12
			p.Multi = 50
			p.MaxOvs = 2
			p.Missing = 15
			p.Plain = 60
			p.Odd = 40
		}),
		with(func(p *Profile) {
			p.Depth = 4
			p.Aliases = 25
			p.Multi = 50
			p.MaxOvs = 1
			p.Missing = 40
			p.Common = 5
			p.DocOvs = 0
			p.Odd = 60
		})}},
	"C02": {models: []model{mActions}, n: 1800, profiles: []Profile{with(func(p *Profile) {
		p.Actions = []string{"replace"}
		p.Missing, p.DocQuery, p.DocIndex, p.Paths, p.Common, p.Odd = 5, 4, 4, 4, 12, 15
	})}},
	"C03": {models: []model{mActions}, n: 1800, profiles: []Profile{with(func(p *Profile) {
		p.Actions = []string{"merge"}
		p.Missing, p.DocQuery, p.DocIndex, p.Paths, p.Common, p.Fit, p.Odd, p.Aliases = 5, 4, 4, 4, 12, 75, 10, 18
	})}},
	"C04": {models: []model{mActions}, n: 2400, profiles: []Profile{with(func(p *Profile) {
		p.Actions = []string{"delete"}
		p.Missing, p.DocQuery, p.DocIndex, p.Paths, p.Common, p.Plain, p.Keys, p.Multi, p.Repeat = 5, 4, 4, 4, 12, 30, 20, 50, 10
	})}},
	"C05": {models: []model{mCombine}, n: 3600, profiles: []Profile{with(func(p *Profile) {
		p.Actions = []string{"combine"}
		p.Missing, p.DocQuery, p.DocIndex, p.Paths, p.Common, p.Fit, p.Numbers, p.FailCombine, p.Scalars, p.Plain, p.Odd, p.Aliases = 3, 3, 3, 3, 10, 90, 45, 20, 80, 60, 5, 12
	})}},
	"C06": {models: []model{mOrder}, n: 1600, profiles: []Profile{with(func(p *Profile) {
		p.Common, p.DocOvs, p.MaxOvs, p.Repeat, p.MaxFiles, p.DocQuery, p.AdHoc, p.AdInstr, p.Multi, p.Plain, p.Many, p.Dup = 60, 45, 4, 80, 4, 25, 25, 90, 50, 70, 30, 30
	})}},
	"C07": {models: []model{mOrder}, n: 1800, profiles: []Profile{with(func(p *Profile) {
		p.DocIndex, p.DocOvs, p.Multi, p.Repeat, p.Roots, p.Plain, p.Missing, p.Dup = 60, 60, 95, 40, 15, 80, 5, 15
	})}},
	"C08": {models: []model{mDq}, n: 1800, profiles: []Profile{with(func(p *Profile) {
		p.Big = 12
		p.DocQuery, p.Repeat, p.Plain, p.Missing, p.Multi, p.Common, p.Comments, p.Odd = 90, 60, 70, 5, 40, 30, 15, 10
	})}},
	"C09": {models: []model{mMissing}, n: 1800, profiles: []Profile{with(func(p *Profile) {
		p.Actions = []string{"merge", "replace", "merge", "replace", "delete", "combine"}
		p.Missing, p.OnMissing, p.DefaultOM, p.Empty, p.Roots, p.Common = 75, 75, 30, 8, 10, 35
	})}},
	"C10": {models: []model{mCopies}, n: 1600, profiles: []Profile{with(func(p *Profile) {
		p.Actions = []string{"merge", "replace", "merge", "replace", "delete"}
		p.Common, p.Multi, p.Repeat, p.MaxFiles, p.MaxOvs, p.Aliases, p.Plain, p.Deeper, p.DocOvs, p.OnMissing, p.Missing = 70, 60, 50, 3, 4, 20, 40, 45, 15, 60, 15
	})}},
	"C11": {models: []model{mConcRace, mConcAll}, n: 160, race: true, profiles: []Profile{with(func(p *Profile) {
		p.MaxFiles, p.Common, p.Repeat, p.DocOvs, p.Plain, p.Aliases, p.MinFiles, p.Missing, p.OnMissing = 6, 90, 60, 20, 60, 15, 3, 25, 70
	}), with(func(p *Profile) {
		p.MaxFiles, p.Common, p.Repeat, p.DocOvs, p.MinFiles, p.Missing, p.OnMissing, p.DocQuery = 6, 90, 40, 30, 3, 10, 50, 30
		p.Text, p.Comments, p.OvComments, p.Markers, p.Sed, p.Fit, p.Style, p.Filters, p.LogLevel = true, 25, 35, 60, 40, 70, 40, 30, 20
	})}},
	"C12": {models: []model{mConc, mConcAll}, hooks: true, n: 1600, profiles: []Profile{with(func(p *Profile) {
		p.Actions = []string{"merge", "replace", "combine", "combine", "delete"}
		p.FailCombine, p.BadInput, p.MaxFiles, p.Paths, p.NoValue, p.Break, p.OnMissing, p.Missing, p.Blocked, p.Stale, p.Stdout, p.Full = 45, 12, 5, 10, 8, 4, 60, 30, 15, 10, 35, 6
	})}},
	"C13": {models: []model{mLayout}, n: 2400, profiles: []Profile{with(func(p *Profile) {
		p.Paths, p.MaxOvs, p.Stdout, p.MaxFiles, p.Common, p.Settings1, p.AdHoc, p.AdInstr, p.Stdin, p.Stale = 100, 1, 5, 4, 5, 25, 15, 60, 10, 25
	})}},
	"C14": {models: []model{mLayout}, n: 1800, profiles: []Profile{with(func(p *Profile) {
		p.Paths, p.MaxOvs, p.Stdout, p.MaxFiles, p.Common, p.Plain, p.Empty, p.AdHoc, p.AdInstr, p.Many, p.Dup = 100, 2, 25, 4, 10, 90, 8, 15, 80, 60, 40
	})}},
	"C15": {models: []model{mStream}, n: 1800, profiles: []Profile{with(func(p *Profile) {
		p.Multi, p.Empty, p.Roots, p.Stdout, p.MaxFiles, p.LogLevel, p.Odd, p.Stale, p.BadInput, p.Blocked = 70, 15, 40, 60, 4, 60, 10, 20, 3, 5
	})}},
	"C16": {models: []model{mComments}, n: 1500, profiles: []Profile{with(func(p *Profile) {
		p.Comments, p.OvComments, p.Text, p.Missing, p.Paths, p.Multi, p.RemoveComments, p.Fit = 35, 30, true, 8, 3, 25, 30, 60
	}), with(func(p *Profile) {
		p.Actions = []string{"merge", "merge", "replace"}
		p.Comments, p.OvComments, p.Text, p.Missing, p.Paths, p.Multi, p.MaxFiles, p.MaxOvs, p.Fit, p.DocQuery, p.DocIndex = 55, 60, true, 3, 2, 15, 1, 2, 90, 4, 4
	})}},
	"C17": {models: []model{mMarkers}, n: 1600, profiles: []Profile{with(func(p *Profile) {
		p.Actions = []string{"merge", "merge", "merge", "replace", "combine"}
		p.Comments, p.OvComments, p.Text, p.Markers, p.Sed, p.Missing, p.Paths, p.Multi, p.Fit, p.Repeat = 30, 35, true, 55, 40, 6, 2, 15, 75, 20
	})}},
	"C18": {models: []model{mValues}, special: []func(c *check) error{templates}},
	"C19": {models: []model{mSettings}, n: 1800, profiles: []Profile{with(func(p *Profile) {
		p.Settings, p.EnvCmd, p.MaxFiles, p.MaxOvs, p.Missing, p.OnMissing, p.Comments, p.Text, p.BadSetting = 30, 25, 1, 2, 40, 15, 20, true, 8
		p.Levels = true
	})}},
	"C20": {models: []model{mQuery}, n: 2600, profiles: []Profile{with(func(p *Profile) {
		p.Actions = []string{"replace", "delete", "merge"}
		p.Plain, p.Filters, p.Keys, p.MaxFiles, p.MaxOvs, p.Common, p.DocOvs, p.DocIndex, p.DocQuery, p.Paths, p.Missing, p.Repeat, p.Queries = 0, 55, 20, 1, 2, 0, 0, 0, 0, 0, 3, 5, true
	})}},
	"C21": {models: []model{mStyle}, n: 1800, profiles: []Profile{with(func(p *Profile) {
		p.Text, p.Multi, p.Style, p.BadSetting, p.MaxOvs, p.Comments, p.Odd = true, 40, 100, 8, 2, 8, 30
	})}},
	"C22": {models: []model{mActions}, n: 500, profiles: []Profile{with(func(p *Profile) {
		p.Text, p.Style, p.Rerun, p.Multi = true, 40, true, 30
		p.Actions = []string{"replace", "delete", "merge"}
		p.Stdout, p.Lists, p.MaxFiles, p.Paths, p.Odd, p.Comments, p.OvComments = 0, 0, 2, 5, 10, 0, 0
	}), with(func(p *Profile) {
		p.Text, p.Comments, p.OvComments, p.Rerun, p.Multi = true, 20, 15, true, 30
		p.Actions = []string{"replace", "delete", "merge"}
		p.Stdout, p.Lists, p.MaxFiles, p.Paths, p.Odd = 0, 0, 2, 5, 10
	})}},
	"C23": {models: []model{mDecode}, n: 2000, profiles: []Profile{with(func(p *Profile) { p.Break, p.DocQuery, p.OnMissing, p.MaxOvs, p.DocOvs = 90, 25, 60, 2, 30 }),
		with(func(p *Profile) {
			p.Break, p.Empty, p.Odd, p.NoValue, p.Roots, p.Missing, p.OnMissing, p.Plain = 0, 12, 50, 15, 25, 30, 70, 20
		})}},
	"C24": {models: []model{mAdHoc}, n: 1800, profiles: []Profile{with(func(p *Profile) {
		p.AdHoc, p.Stdin, p.Paths, p.MaxOvs, p.AdInstr, p.Equivalent = 100, 35, 40, 2, 35, 100
	})}},
}
