"""Definitions of the planted bugs (see plant.py)."""
BUGS = {}
def bug(id, property, edits, pkg, test, needs, what_it_breaks, **kw):
    BUGS[id] = dict(property=property, edits=edits, pkg=pkg, test=test, needs=needs, what_it_breaks=what_it_breaks, **kw)

bug('C02-cap-degree', 'C02', [('core/util.go', '''	var wg = &sync.WaitGroup{}
''', '''	if degree > size {
		degree = size
	}
	var wg = &sync.WaitGroup{}
''')], 'core', '''package core_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
)

func TestZZDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("panic on empty data", r)
		}
	}()
	core.Par(func(start, end, rank int) {
		if start != end {
			t.Error("not an empty range")
		}
	}, 0, 4)
}
''', 'an empty index range', 'the number of partitions becomes 0 and the runner panics with a division by zero')

bug('C05-integer-norm', 'C05', [('core/clustering.go', '''		losses[label] += math.Pow(dist, norm)
''', '''		losses[label] += power(dist, norm)
'''), ('core/clustering.go', '''// nearest Returns the label''', '''// power raises a distance to the given norm, without the cost of math.Pow for the usual norms
func power(dist float64, norm float64) float64 {
	if norm < 1 || norm > 4 {
		return math.Pow(dist, norm)
	}
	var res = dist
	for i := 1; i < int(norm); i++ {
		res *= dist
	}
	return res
}

// nearest Returns the label''')], 'core', '''package core_test

import (
	"math"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
)

func TestZZDemo(t *testing.T) {
	var c = core.Clust{[]float64{0}}
	var l, _ = c.ReduceLossForLabels([]core.Elemt{[]float64{4}}, []int{0}, euclid.NewSpace(), 2.5)
	if math.Abs(l[0]-32) > 1e-9 {
		t.Fatal("wrong loss", l)
	}
}
''', 'a norm that is not an integer (between 1 and 4)', 'the loss for given labels uses the integer part of the norm')

bug('C07-zero-weight-alias', 'C07', [('euclid/vectors.go', '''	var t = w1 + w2
''', '''	var t = w1 + w2
	if weight2 == 0 {
		return point1
	}
''')], 'euclid', '''package euclid_test

import (
	"testing"

	"github.com/wearelumenai/distclus/euclid"
)

func TestZZDemo(t *testing.T) {
	var p, q = []float64{1, 2}, []float64{3, 4}
	var r = euclid.NewSpace().PointCombine(p, 2, q, 0)
	r[0] = 42
	if p[0] != 1 {
		t.Fatal("the combination shares its storage with an argument")
	}
}
''', 'a combination in which the second weight is 0', 'the result is the first argument itself instead of a new vector')

bug('C08-abs-similarity', 'C08', [('cosinus/cosinus.go', '	return 1 - Cosinus(point1, point2)', '	return 1 - math.Abs(Cosinus(point1, point2))')], 'cosinus', '''package cosinus_test

import (
	"math"
	"testing"

	"github.com/wearelumenai/distclus/cosinus"
)

func TestZZDemo(t *testing.T) {
	if d := cosinus.NewSpace().PointDist([]float64{1, 2}, []float64{-1, -2}); math.Abs(d-2) > 1e-9 {
		t.Fatal("wrong distance of opposite vectors", d)
	}
}
''', 'vectors at an angle of more than 90 degrees', 'the distance of opposite vectors is 0 instead of 2')

bug('C13-tiny-weights', 'C13', [('kmeans/init.go', '	if sum == 0 {', '	if sum < 1e-9 {')], 'kmeans', '''package kmeans_test

import (
	"testing"

	"golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/kmeans"
)

func TestZZDemo(t *testing.T) {
	var i, err = kmeans.WeightedChoice([]float64{0, 1e-12, 0}, rand.New(rand.NewSource(1)))
	if err != nil || i != 1 {
		t.Fatal("no choice among positive weights", i, err)
	}
}
''', 'positive weights whose sum is below 1e-9', 'an error is returned although a weight is positive')

bug('C21-iter-per-data', 'C21', [('core/finish.go', '	if i.Iter > 0 || i.IterPerData > 0 {', '	if i.Iter > 0 {')], 'core', '''package core_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
)

type zzModel struct{ core.OCModel }

func (zzModel) RuntimeFigures() core.RuntimeFigures {
	return core.RuntimeFigures{core.Iterations: 10, core.PushedData: 2}
}

func TestZZDemo(t *testing.T) {
	if !core.NewIterFinishing(0, 3).IsFinished(zzModel{}) {
		t.Fatal("10 iterations reach 3 per pushed element")
	}
}
''', 'a finishing condition that gives iterations per pushed element only', 'such a condition never becomes true')

bug('C01-early-exit', 'C01', [('core/clustering.go', '	for i := 0; i < len(*c); i++ {', '	for i := 0; i < len(*c) && min != 0; i++ {')], 'core', '''package core_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
)

// a distance that rounds below zero, as 1 - cosinus does
type zzSpace struct{ euclid.Space }

func (zzSpace) Dist(e1, e2 core.Elemt) float64 { return e2.([]float64)[0] }

func TestZZDemo(t *testing.T) {
	var c = core.Clust{[]float64{1}, []float64{0}, []float64{-2e-16}}
	if _, label, _ := c.Assign([]float64{0}, zzSpace{}); label != 2 {
		t.Fatal("not the nearest centroid", label)
	}
}
''', 'a distance that rounds below zero (cosinus) after a centroid at distance exactly 0', 'the search stops at the first centroid at distance 0 although a later one is nearer')

bug('C03-empty-data', 'C03', [('core/par_loss.go', '''func parLoss(centroids Clust, data []Elemt, space Space, norm float64, degree int) ([]float64, []int) {
''', '''func parLoss(centroids Clust, data []Elemt, space Space, norm float64, degree int) ([]float64, []int) {
	if degree > len(data) {
		degree = len(data)
	}
''')], 'core', '''package core_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
)

func TestZZDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("panic", r)
		}
	}()
	var c = core.Clust{[]float64{1}, []float64{0}}
	var l, n = c.ParReduceLoss(nil, euclid.NewSpace(), 2, 3)
	if len(l) != 2 || len(n) != 2 {
		t.Fatal("not the sequential result", l, n)
	}
}
''', 'an empty data set', 'the parallel loss panics (division by zero) where the sequential one returns zeros')

bug('C03-small-data-shortcut', 'C03', [('core/par_dba.go', '''	var aggr = dbaAggregate(parts, space)

	return aggr.dbas, aggr.cards
''', '''	var aggr = dbaAggregate(parts, space)
	for i := range aggr.cards {
		if aggr.cards[i] == 0 {
			aggr.dbas[i] = centroids[i]
		}
	}

	return aggr.dbas, aggr.cards
''')], 'core', '''package core_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
)

func TestZZDemo(t *testing.T) {
	var c = core.Clust{[]float64{1}, []float64{0}}
	var data, labels = []core.Elemt{[]float64{2}}, []int{0}
	var seq, _ = c.ReduceDBAForLabels(data, labels, euclid.NewSpace())
	var par, _ = c.ParReduceDBAForLabels(data, labels, euclid.NewSpace(), 3)
	if seq[1] != nil || par[1] != nil {
		t.Fatal("parallel and sequential differ", seq, par)
	}
}
''', 'labels that leave a cluster empty', 'the parallel reduction by labels returns the old centroid for an empty cluster, the sequential one nil')

bug('C04-bounded-weight', 'C04', [('core/clustering.go', '		weight++\n', '''		if weight < 1000 {
			weight++
		}
''')], 'core', '''package core_test

import (
	"math"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
)

func TestZZDemo(t *testing.T) {
	var data = make([]core.Elemt, 3000)
	for i := range data {
		data[i] = []float64{float64(i)}
	}
	var m, _ = core.DBA(data, euclid.NewSpace())
	if math.Abs(m.([]float64)[0]-1499.5) > 1e-3 {
		t.Fatal("wrong mean", m)
	}
}
''', 'a list of more than 1000 elements', 'the running weight stops at 1000, so later elements weigh too much')

bug('C12-bounded-draws', 'C12', [('kmeans/init.go', '		var i int\n', '		var i, tries int\n'), ('kmeans/init.go', '			if !found {\n', '''			tries++
			if !found || tries > 100 {
				tries = 0
''')], 'kmeans', '''package kmeans_test

import (
	"testing"

	"golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
)

func TestZZDemo(t *testing.T) {
	var data = make([]core.Elemt, 300)
	for i := range data {
		data[i] = []float64{float64(i)}
	}
	for seed := uint64(0); seed < 20; seed++ {
		var c, err = kmeans.RandInitializer(300, data, euclid.NewSpace(), rand.New(rand.NewSource(seed)))
		if err != nil || len(c) != 300 {
			t.Fatal("no centroids", err)
		}
		var seen = map[float64]bool{}
		for i := range c {
			var x = c[i].([]float64)[0]
			if seen[x] {
				t.Fatal("element drawn twice", x)
			}
			seen[x] = true
		}
	}
}
''', 'more than 100 rejected draws in a row (k close to a large number of elements)', 'the same element is drawn for two centroids')

IMPL = '''
type zzImpl struct {
	init    func() (core.Clust, error)
	iterate func(m core.OCModel) (core.Clust, core.RuntimeFigures, error)
	push    func(e core.Elemt) error
}

func (i *zzImpl) Init(core.OCModel) (core.Clust, error) {
	if i.init == nil {
		return core.Clust{0.0}, nil
	}
	return i.init()
}
func (i *zzImpl) Iterate(m core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	time.Sleep(time.Millisecond)
	if i.iterate == nil {
		return core.Clust{1.0}, nil, nil
	}
	return i.iterate(m)
}
func (i *zzImpl) Push(e core.Elemt, m core.OCModel) error {
	if i.push == nil {
		return nil
	}
	return i.push(e)
}
func (i *zzImpl) Copy(core.OCModel) (core.Impl, error) { return i, nil }

type zzFin func(m core.OCModel) bool

func (f zzFin) IsFinished(m core.OCModel) bool { return f(m) }

func zzUntil(t *testing.T, what string, f func() bool) {
	for end := time.Now().Add(20 * time.Second); !f(); time.Sleep(5 * time.Millisecond) {
		if time.Now().After(end) {
			t.Fatal("waited for ", what)
		}
	}
}

func zzWithin(t *testing.T, what string, f func()) {
	var c = make(chan bool)
	go func() { f(); close(c) }()
	select {
	case <-c:
	case <-time.After(20 * time.Second):
		t.Fatal("blocked: ", what)
	}
}
'''
def ctrl(body, imports=''):
    return '''package core_test

import (
	"testing"
	"time"
%s
	"github.com/wearelumenai/distclus/core"
)
%s
%s''' % (imports, IMPL, body)

bug('C06-shared-storage', 'C06', [('core/buffer.go', '''		db.data = make([]Elemt, len(data))
		copy(db.data, data)
	}
''', '''		// appending to the capped slice moves it to storage of its own
		db.data = data[:len(data):len(data)]
	}
''')], 'core', '''package core_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
)

func TestZZDemo(t *testing.T) {
	var data = []core.Elemt{1, 2, 3}
	var b = core.NewDataBuffer(data, 0)
	data[1] = 9
	if b.Data()[1] != 2 {
		t.Fatal("the buffer changed with the slice it was created from", b.Data())
	}
}
''', 'an unbounded buffer created from a slice that its owner then changes, before anything was pushed', 'the buffer shares the storage of the slice until its first push')

bug('C14-few-data', 'C14', [('kmeans/seq.go', '''	var result, _ = centroids.ReduceDBA(data, space)
''', '''	if len(data) < len(centroids) {
		return centroids // each element is its own centroid
	}
	var result, _ = centroids.ReduceDBA(data, space)
''')], 'kmeans', '''package kmeans_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
)

func TestZZDemo(t *testing.T) {
	var s = kmeans.SeqStrategy{}
	var r = s.Iterate(euclid.NewSpace(), core.Clust{[]float64{0}, []float64{10}, []float64{20}}, []core.Elemt{[]float64{1}, []float64{3}})
	if r[0].([]float64)[0] != 2 || r[1].([]float64)[0] != 10 {
		t.Fatal("not a Lloyd step", r)
	}
}
''', 'fewer elements than centroids', 'the centroids never move')

bug('C15-more-than-data', 'C15', [('mcmc/impl.go', '''	case newK > len(data):
		return len(data)
''', '')], 'mcmc', '''package mcmc_test

import (
	"testing"

	"golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/mcmc"
)

// as many centers as data, far from them
func TestZZDemo(t *testing.T) {
	var space = euclid.NewSpace()
	var data = []core.Elemt{[]float64{1}, []float64{2}, []float64{3}}
	var far = func(k int, data []core.Elemt, space core.Space, src *rand.Rand) (core.Clust, error) {
		return core.Clust{[]float64{100}, []float64{200}, []float64{300}}, nil
	}
	for seed := uint64(0); seed < 20; seed++ {
		var conf = mcmc.Conf{InitK: 3, MaxK: 8, ProbaK: []float64{0, 1, 8}, Amp: 100, B: .1, RGen: rand.New(rand.NewSource(seed))}
		var a = mcmc.NewAlgo(conf, space, data, far, mcmc.NewDirac())
		if err := a.Init(); err != nil {
			t.Fatal(err)
		}
		var c, _, err = a.Impl().Iterate(a)
		if err != nil || len(c) > 3 {
			t.Fatal("more centers than data", err, c)
		}
	}
}
''', 'as many centers as data, some of them at a distance of every element', 'a center more than there are data is proposed, and published when accepted')

bug('C16-stale-time', 'C16', [('mcmc/impl.go', '''math.Sqrt(float64(impl.dim+3)/float64(time))''', '''math.Sqrt(float64(impl.dim+3)/float64(impl.time))''')], 'mcmc', '''package mcmc_test

import (
	"math"
	"testing"

	"golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
)

func TestZZDemo(t *testing.T) {
	var space = euclid.NewSpace()
	var data []core.Elemt
	for i := 0; i < 8; i++ {
		data = append(data, []float64{float64(i)})
	}
	var conf = mcmc.Conf{InitK: 2, Amp: 1, RGen: rand.New(rand.NewSource(3)), CtrlConf: core.CtrlConf{Iter: 1}}
	var a = mcmc.NewAlgo(conf, space, data, kmeans.GivenInitializer, mcmc.NewDirac())
	if err := a.Init(); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 24; i++ {
		if err := a.Push([]float64{float64(i)}); err != nil {
			t.Fatal(err)
		}
	}
	var impl = a.Impl()
	for i := 0; i < 3; i++ {
		var c, f, err = impl.Iterate(a)
		if err != nil || c == nil {
			t.Fatal(err)
		}
		var want = math.Sqrt(4 / f[mcmc.Time])
		if math.Abs(f[mcmc.Lambda]-want) > 1e-9 {
			t.Fatal("wrong lambda", f[mcmc.Lambda], want)
		}
	}
}
''', 'data that arrived since the previous iteration', 'the acceptance of the first iteration after a push is computed for the previous number of data')

bug('C17-shared-last', 'C17', [('mcmc/store.go', '''			clust[i] = space.Copy(prev[i+1])
''', '''			clust[i] = prev[i+1]
''')], 'mcmc', '''package mcmc_test

import (
	"testing"

	"golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/mcmc"
)

func TestZZDemo(t *testing.T) {
	for seed := uint64(0); seed < 10; seed++ {
		var store = mcmc.NewCenterStore(rand.New(rand.NewSource(seed)))
		var prev = core.Clust{[]float64{1}, []float64{2}, []float64{3}}
		var c, err = store.GetCenters(nil, euclid.NewSpace(), 2, prev)
		if err != nil || len(c) != 2 {
			t.Fatal(err)
		}
		for i := range c {
			c[i].([]float64)[0] = 9
		}
		for i := range prev {
			if prev[i].([]float64)[0] != float64(i+1) {
				t.Fatal("the previous centers changed", prev)
			}
		}
	}
}
''', 'a removed center that is not the last one, and a result changed in place', 'the centers after the removed one are shared with the previous list')

bug('C18-capped-cards', 'C18', [('streaming/impl.go', '''	impl.cards[label]++
''', '''	if impl.cards[label] < 500 {
		impl.cards[label]++
	}
''')], 'streaming', '''package streaming_test

import (
	"math"
	"testing"

	"golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/streaming"
)

func TestZZDemo(t *testing.T) {
	var impl = streaming.NewImpl(streaming.Conf{BufferSize: 1, RGen: rand.New(rand.NewSource(1))}, nil)
	var space = euclid.NewSpace()
	var sum = 0.
	impl.AddCenter([]float64{0}, 0)
	for i := 1; i < 2000; i++ {
		sum += float64(i)
		impl.UpdateCenter(0, []float64{float64(i)}, 1, space)
	}
	if got := impl.GetClusters()[0].([]float64)[0]; math.Abs(got-sum/2000) > 1e-6 {
		t.Fatal("not the mean of the elements", got, sum/2000)
	}
}
''', 'a center joined by more than 500 elements', 'further elements are not counted, and weigh too much')

bug('C19-out-after', 'C19', [('streaming/impl.go', 'impl.count >= impl.conf.OutAfter &&', 'len(impl.cards) >= impl.conf.OutAfter &&')], 'streaming', '''package streaming_test

import (
	"testing"

	"golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/streaming"
)

// few clusters: the first elements are close to each other, then comes a far one
func TestZZDemo(t *testing.T) {
	var conf = streaming.Conf{BufferSize: 1, Mu: 1000, Sigma: .001, OutRatio: 2, OutAfter: 5, RGen: rand.New(rand.NewSource(1))}
	var impl = streaming.NewImpl(conf, nil)
	var space = euclid.NewSpace()
	impl.AddCenter([]float64{0}, 0)
	for i := 0; i < 10; i++ {
		impl.Process([]float64{float64(i%2) + 1}, space)
	}
	var max = impl.GetMaxDistance()
	impl.Process([]float64{1000}, space)
	if len(impl.GetClusters()) != 2 || impl.GetMaxDistance() != max {
		t.Fatal("the outlier was not set apart", impl.GetClusters(), max, impl.GetMaxDistance())
	}
}
''', 'fewer clusters than the outlier delay after that many elements', 'outliers are merged in a cluster, or raise the maximal distance')

bug('C20-low-ratio', 'C20', [('streaming/conf.go', '	if conf.OutRatio == 0. {', '	if conf.OutRatio < 1. {')], 'streaming', '''package streaming_test

import (
	"testing"

	"github.com/wearelumenai/distclus/streaming"
)

func TestZZDemo(t *testing.T) {
	var conf = streaming.Conf{OutRatio: .75}
	conf.SetDefaultValues()
	if conf.OutRatio != .75 {
		t.Fatal("a parameter that was set changed", conf.OutRatio)
	}
}
''', 'an outlier ratio between 0 and 1', 'the ratio is replaced with the default one')

bug('C22-notify-locked', 'C22', [('core/algo.go', '''	var statusNotifier = algo.conf.Ctrl().StatusNotifier
	algo.modelMutex.RUnlock()
''', '''	defer algo.modelMutex.RUnlock()
	var statusNotifier = algo.conf.Ctrl().StatusNotifier
''')], 'core', ctrl('''
func TestZZDemo(t *testing.T) {
	var done = make(chan bool, 10)
	var conf = &core.CtrlConf{Iter: 3, StatusNotifier: func(algo core.OnlineClust, s core.OCStatus) {
		if s.Value == core.Finished {
			algo.Push(1.0)
			done <- true
		}
	}}
	var a = core.NewAlgo(conf, &zzImpl{}, nil)
	zzWithin(t, "batch", func() { a.Batch() })
	zzWithin(t, "a push of the notifier", func() { <-done })
}
'''), 'a notifier that pushes an element', 'the notifier is called with the model lock held, and deadlocks')

bug('C24-kept-time', 'C24', [('core/ctrl.go', '		algo.lastDataTime = 0\n', '')], 'core', ctrl('''
func TestZZDemo(t *testing.T) {
	var a = core.NewAlgo(&core.CtrlConf{Iter: 3}, &zzImpl{}, nil)
	if a.Push(1.0) != nil || a.Batch() != nil {
		t.Fatal("batch")
	}
	if a.RuntimeFigures()[core.LastDataTime] == 0 {
		t.Fatal("no time")
	}
	if err := a.Init(); err != nil {
		t.Fatal(err)
	}
	if f := a.RuntimeFigures()[core.LastDataTime]; f != 0 {
		t.Fatal("time of data pushed before the initialization", f)
	}
}
'''), 'a second initialization after a push', 'the figures of the new history hold the time of the last push of the old one')

bug('C25-user-only', 'C25', [('core/ctrl.go', '''		finishing = NewOrFinishing(finishing, conf.Finishing)
''', '''		finishing = conf.Finishing
''')], 'core', ctrl('''
func TestZZDemo(t *testing.T) {
	var n = 0
	var a = core.NewAlgo(&core.CtrlConf{Iter: 3, Finishing: zzFin(func(core.OCModel) bool { return n > 50 })}, &zzImpl{
		iterate: func(core.OCModel) (core.Clust, core.RuntimeFigures, error) { n++; return core.Clust{1.0}, nil, nil },
	}, nil)
	zzWithin(t, "batch", func() { a.Batch() })
	if n != 3 {
		t.Fatal("iterations", n)
	}
}
'''), 'both a number of iterations and a finishing condition', 'the number of iterations is ignored')

bug('C26-partial-centroids', 'C26', [('core/ctrl.go', '''	if err == nil {
		if algo.status.Value == Running {
			algo.setStatus(NewOCStatus(Ready), true)
		}
	} else {
''', '''	if err == nil {
		if algo.status.Value == Running {
			algo.setStatus(NewOCStatus(Ready), true)
		}
	} else {
		if centroids != nil { // keep what was found
			algo.modelMutex.Lock()
			algo.centroids = centroids
			algo.modelMutex.Unlock()
		}
''')], 'core', ctrl('''
func TestZZDemo(t *testing.T) {
	var n = 0
	var a = core.NewAlgo(&core.CtrlConf{Iter: 30}, &zzImpl{
		iterate: func(core.OCModel) (core.Clust, core.RuntimeFigures, error) {
			n++
			if n == 3 {
				return core.Clust{-1.0}, nil, errors.New("failed")
			}
			return core.Clust{float64(n)}, nil, nil
		},
	}, nil)
	zzWithin(t, "batch", func() { a.Batch() })
	if a.Status().Value != core.Finished || a.Status().Error == nil {
		t.Fatal("status", a.Status())
	}
	if c := a.Centroids(); c[0] != 2.0 {
		t.Fatal("centroids of a failed iteration were published", c)
	}
}
''', '	"errors"\n'), 'an implementation that returns centroids along with an error', 'the centroids of the failed iteration are published')

bug('C26-panic-error', 'C26', [('core/ctrl.go', '''	var recovery = recover()
	if recovery != nil {
		var err = fmt.Errorf("%v", recovery)
''', '''	var recovery = recover()
	if recovery != nil {
		var err, ok = recovery.(error)
		if !ok {
			err = fmt.Errorf("run: %T", recovery)
		}
''')], 'core', ctrl('''
func TestZZDemo(t *testing.T) {
	var a = core.NewAlgo(&core.CtrlConf{Iter: 30}, &zzImpl{
		iterate: func(core.OCModel) (core.Clust, core.RuntimeFigures, error) { panic("the disk is full") },
	}, nil)
	zzWithin(t, "batch", func() { a.Batch() })
	var s = a.Status()
	if s.Value != core.Finished || s.Error == nil || !strings.Contains(s.Error.Error(), "the disk is full") {
		t.Fatal("status", s)
	}
}
''', '	"strings"\n'), 'an implementation that panics with a value that is not an error', 'the message of the panic is lost')

bug('C28-pdf-element', 'C28', [('mcmc/latedistrib.go', 'd.initialize(mu).Pdf(', 'd.initialize(x).Pdf(')], 'mcmc', '''package mcmc_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/mcmc"
)

func TestZZDemo(t *testing.T) {
	var got core.Elemt
	var d = mcmc.NewLateDistrib(func(e core.Elemt) mcmc.Distrib { got = e; return mcmc.NewDirac() })
	d.Pdf([]float64{1}, []float64{2}, 1)
	if got.([]float64)[0] != 2 {
		t.Fatal("built on", got)
	}
}
''', 'a density asked before any sample', 'the distribution is built on the evaluated element, not on the center')

bug('C29-deadline-first', 'C29', [('core/timeout.go', '''		if t.isFinished() {
			break
		} else if t.isTimeout(elapsedTime) {
			err = ErrTimeout
			break
		} else {''', '''		if t.isTimeout(elapsedTime) {
			err = ErrTimeout
			break
		} else if t.isFinished() {
			break
		} else {''')], 'core', ctrl('''
func TestZZDemo(t *testing.T) {
	var a = core.NewAlgo(&core.CtrlConf{Iter: 3}, &zzImpl{}, nil)
	for i := 0; i < 20; i++ {
		if err := core.WaitTimeout(zzFin(func(core.OCModel) bool { return true }), 1, a); err != nil {
			t.Fatal(err)
		}
	}
}
'''), 'a condition already met when the deadline has passed', 'waiting fails with a timeout though the condition is met')

bug('C30-capped-shift', 'C30', [('mcmc/multivt.go', '''	var scale = m.Nu / math''', '''	shift = math.Min(shift, 1e12) // far enough, and safe for the logarithm
	var scale = m.Nu / math''')], 'mcmc', '''package mcmc_test

import (
	"math"
	"testing"

	"golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/mcmc"
)

func TestZZDemo(t *testing.T) {
	var m = mcmc.NewMultivT(mcmc.MultivTConf{Dim: 1, Nu: 3, RGen: rand.New(rand.NewSource(1))})
	var near, far = m.Pdf([]float64{0}, []float64{1e7}, 5), m.Pdf([]float64{0}, []float64{1e8}, 5)
	// far away the density decreases with the power dim+nu of the distance
	if math.Abs(near-far-4*math.Log(10)) > 1e-6 {
		t.Fatal("density of elements at 1e7 and 1e8", near, far)
	}
}
''', 'elements more than a million apart', 'the density no longer depends on the distance')

bug('C23-late-timeout', 'C23', [('core/ctrl.go', '''	case Ready:
		algo.setStatus(NewOCStatusError(interruption), false)
''', '''	case Ready:
		// nothing was interrupted
		algo.setStatus(NewOCStatusError(nil), false)
''')], 'core', ctrl('''
func TestZZDemo(t *testing.T) {
	var a = core.NewAlgo(&core.CtrlConf{Iter: 2, Timeout: 500 * time.Millisecond}, &zzImpl{}, nil)
	if err := a.Play(); err != nil {
		t.Fatal(err)
	}
	zzUntil(t, "ready", func() bool { return a.Status().Value == core.Ready })
	zzUntil(t, "finished", func() bool { return a.Status().Value == core.Finished })
	if a.Status().Error != core.ErrTimeout {
		t.Fatal("status", a.Status())
	}
}
'''), 'an interruption time limit that passes when the run is already over', 'the finished status does not hold the timeout error')

bug('C09-unit-band', 'C09', [('dtw/cost.go', 'return cumCost.index(i, j-i+cumCost.window)', 'return cumCost.index(i, j-i+1)')], 'dtw', '''package dtw_test

import (
	"math"
	"testing"

	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
)

func TestZZDemo(t *testing.T) {
	var a = [][]float64{{5}, {0}, {3}, {1}, {4}, {2}, {6}, {0}, {7}, {1}}
	var b = [][]float64{{1}, {9}, {0}, {2}, {6}, {3}, {5}, {1}, {0}, {7}}
	var cost = dtw.NewCumCostMatrix(a, b, euclid.NewSpace(), 2)
	var ref [10][10]float64
	for i := range a {
		for j := range b {
			ref[i][j] = math.Inf(1)
			if i-j > 2 || j-i > 2 {
				continue
			}
			var best = math.Inf(1)
			if i == 0 && j == 0 {
				best = 0
			}
			if i > 0 {
				best = math.Min(best, ref[i-1][j])
			}
			if j > 0 {
				best = math.Min(best, ref[i][j-1])
			}
			if i > 0 && j > 0 {
				best = math.Min(best, ref[i-1][j-1])
			}
			ref[i][j] = best + math.Abs(a[i][0]-b[j][0])
		}
	}
	for i := range a {
		for j := range b {
			if cost.Get(i, j) != ref[i][j] {
				t.Fatal("accumulated cost", i, j, cost.Get(i, j), ref[i][j])
			}
		}
	}
	if d := dtw.NewDTWWindow(a, b, euclid.NewSpace(), 2).Dist(); d != ref[9][9] {
		t.Fatal("distance", d)
	}
}
''', 'a window of at least 2 and series longer than the window', 'the lines of the band overlap, so that stored costs overwrite each other')
