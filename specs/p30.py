"""Call-chain congruence of the input pipeline with the option-to-stage table:
the dataset handed out is analysed as a chain of stages, each option is followed
into the argument of its stage, and configuration checks are analysed as
raising conditions."""
from .common import *
from .womd import *
from wx.interp import Opq, Func
from wx.lib import IterVal, tree_leaves

FLOOR = 1300
ASSUME = ['tf.data stages do what their documentation says', 'shard counts in file names are the literal ones listed']
DU, WL = 'waymax.dataloader.dataloader_utils.', 'waymax.dataloader.womd_dataloader.'
NEUTRAL = {'prefetch', 'with_options'}
SIG = {
    'shard': ('num_shards', 'index', 'name'), 'interleave': ('map_func', 'cycle_length', 'block_length', 'num_parallel_calls', 'deterministic', 'name'),
    'repeat': ('count', 'name'), 'shuffle': ('buffer_size', 'seed', 'reshuffle_each_iteration', 'name'), 'map': ('map_func', 'num_parallel_calls', 'deterministic'),
    'unbatch': ('name',), 'batch': ('batch_size', 'drop_remainder', 'num_parallel_calls', 'deterministic', 'name'), 'apply': ('transformation_func',),
    'from_tensor_slices': ('tensors', 'name'), 'range': ('stop',), 'distribute': ('processing_mode', 'service', 'job_name')}
DEFAULT = {'deterministic': None, 'drop_remainder': False, 'count': None}


def short(o):
  return o.path.split('.')[-1]


class Files:
  """The host-side file shuffling of a world."""

  def __init__(self, w):
    self.w, self.seed, self.shuffles = w, None, []
    h = w.it.ext_hooks
    h['random.seed'] = self.set_seed
    h['random.shuffle'] = self.shuffle
    h['random.Random'] = self.rng
    h['jax.process_count'] = lambda *a: A.sym(t.inp('processes', isint=True))
    h['jax.process_index'] = lambda *a: A.sym(t.inp('process', isint=True))
    h['jax.local_device_count'] = lambda *a: A.sym(t.inp('devices', isint=True))
    import posixpath
    h['os.path.basename'] = posixpath.basename
    h['os.path.split'] = posixpath.split
    h['os.path.join'] = posixpath.join
    h['os.path.dirname'] = posixpath.dirname

  def set_seed(self, a=None, *_):
    self.seed = a

  def shuffle(self, x):
    self.shuffles.append(self.seed)
    x.append(x.pop(0))      # any fixed permutation

  def rng(self, seed=None):
    def shuffle(x):
      self.shuffles.append(seed)
      x.append(x.pop(0))
    o = Opq('random.Random', [seed], call=True)
    o.attrs['shuffle'] = Native('shuffle', shuffle)
    return o


def argof(o, name):
  if name in o.kwargs:
    return o.kwargs[name]
  sig = SIG.get(short(o), ())
  if name in sig and sig.index(name) < len(o.args):
    return o.args[sig.index(name)]
  return DEFAULT.get(name)


def stages(ds):
  """The called stages of a dataset, source first, without neutral ones."""
  if not isinstance(ds, Opq):
    raise Gap(f'dataset {ds!r:.80}')
  return [o for o in ds.chain() if o.call and short(o) not in NEUTRAL]


def val(v):
  """Comparable form of a setting."""
  if isinstance(v, (A.Sym, Arr)):
    return t.lift(A.norm_dim(v)) if isinstance(v, A.Sym) else asarr(v).fn(())
  if isinstance(v, (bool, str, type(None))):
    return v
  if isinstance(v, int):
    return t.lift(v)
  if isinstance(v, (list, tuple)):
    return tuple(val(x) for x in v)
  return repr(v)


def inp(n):
  return A.sym(t.inp(n, isint=True))


def same(c, rule, what, got, want):
  c.check(val(got) is val(want) or val(got) == val(want), rule, what, detail=f'{got!r:.120} instead of {want!r:.120}')


def pipeline(c, w, files, label, ds, opt, pre, check_pre):
  """Checks a whole dataset against the settings."""
  try:
    top = stages(ds)
    dist = [o for o in top if short(o) == 'apply']
    top = [o for o in top if short(o) != 'apply']
    if opt['service'] is None:
      c.check(not dist, 'service', f'{label}: no data service unless an address is set')
    elif c.check(len(dist) == 1, 'service', f'{label}: the data service is used once', detail=len(dist)):
      f = argof(dist[0], 'transformation_func')
      same(c, 'service', f'{label}: address', argof(f, 'service') if isinstance(f, Opq) else None, opt['service'])
    if [short(o) for o in top][:1] == ['range'] and len(top) == 2 and short(top[1]) == 'interleave':
      same(c, 'parallel', f'{label}: one loader per shard', top[0].args[-1] if len(top[0].args) == 1 else None, opt['shards'])
      same(c, 'deterministic', f'{label}: joining the loaders', argof(top[1], 'deterministic'), opt['deterministic'])
      idx = inp('loader')
      inner = stages(w.it.call(argof(top[1], 'map_func'), [idx], {}))
      shards = [o for o in inner if short(o) == 'shard']
      ok = [o for o in shards if val(argof(o, 'index')) is val(idx)]
      if c.check(len(ok) == 1, 'parallel', f'{label}: each loader reads its own part of the files', detail=repr(shards)[:200]):
        same(c, 'parallel', f'{label}: parts', argof(ok[0], 'num_shards'), opt['shards'])
      inner = [o for o in inner if o not in ok]
    else:
      inner = top
  except UNDECIDED as e:
    c.gap('stages', label, e)
    return
  names = [short(o) for o in inner]
  src = inner[0]
  if c.check(names[0] == 'from_tensor_slices', 'files', f'{label}: files are the source', detail=names):
    got = list(w.it.iterate(argof(src, 'tensors')))
    c.check(sorted(got) == sorted(opt['files']), 'files', f'{label}: exactly the files of the path', detail=repr(got)[:200])
  if opt['seed'] is None:
    c.check(not files.shuffles, 'shuffle', f'{label}: files stay in order without a seed')
    c.check(got == list(opt['files']), 'files', f'{label}: in order', detail=repr(got)[:200])
  else:
    c.check(bool(files.shuffles), 'shuffle', f'{label}: files are shuffled')
    c.check(all(val(s) == val(opt['seed']) for s in files.shuffles), 'shuffle', f'{label}: every process shuffles the files alike (seeded)', detail=repr(files.shuffles))
  want = ['from_tensor_slices', 'shard', 'interleave', 'repeat'] + (['shuffle'] if opt['seed'] is not None else []) + ['map'] + (
      [] if opt['scenario'] else ['unbatch']) + ['batch'] * len(opt['batch'])
  if not c.check(names == want, 'stage-order', f'{label}: stages in order', detail=f'{names} instead of {want}'):
    return
  by = {n: [o for o in inner if short(o) == n] for n in set(names)}
  same(c, 'process', f'{label}: files split over all processes', argof(by['shard'][0], 'num_shards'), inp('processes'))
  same(c, 'process', f'{label}: this process takes its own part', argof(by['shard'][0], 'index'), inp('process'))
  rd = argof(by['interleave'][0], 'map_func')
  c.check('TFRecordDataset' in repr(rd), 'format', f'{label}: records are read in the configured format', detail=repr(rd))
  same(c, 'deterministic', f'{label}: reading', argof(by['interleave'][0], 'deterministic'), opt['deterministic'])
  same(c, 'repeat', f'{label}: repeat', argof(by['repeat'][0], 'count'), opt['repeat'])
  if opt['seed'] is not None:
    s = by['shuffle'][0]
    same(c, 'shuffle', f'{label}: buffer size', argof(s, 'buffer_size'), opt['buffer'])
    sd = argof(s, 'seed')
    dep = {a for a in c.reads(asarr(sd).fn(()))} if isinstance(sd, (Arr, A.Sym)) else set()
    c.check(any('process' in repr(a) for a in dep), 'shuffle', f'{label}: each process shuffles with its own seed', detail=repr(sd)[:120])
  check_pre(argof(by['map'][0], 'map_func'))
  same(c, 'deterministic', f'{label}: parsing', argof(by['map'][0], 'deterministic'), opt['deterministic'])
  for k, o in enumerate(by.get('batch', [])):
    same(c, 'batch', f'{label}: batch level {k} from the inside', argof(o, 'batch_size'), opt['batch'][-1 - k])
    same(c, 'batch', f'{label}: drop remainder at level {k}', argof(o, 'drop_remainder'), opt['drop'])
    same(c, 'deterministic', f'{label}: batching level {k}', argof(o, 'deterministic'), opt['deterministic'])


BASE = dict(seed=None, buffer=None, repeat=None, batch=(), shards=None, deterministic=True, drop=True, service=None, scenario=True, path='/data/plain', files=['/data/plain'])


def variants():
  def v(**k):
    o = dict(BASE)
    o.update(k)
    return o
  sh = dict(path='/d@ta/set@3', files=[f'/d@ta/set-{i:05d}-of-00003' for i in range(3)])
  yield 'plain', v()
  for s in (0, 7):
    yield f'seed {s}', v(seed=s)
    yield f'seed {s}, sharded', v(seed=s, **{**sh, 'path': '/data/set@3', 'files': [f'/data/set-{i:05d}-of-00003' for i in range(3)]})
  yield 'sharded', v(path='/data/set@3', files=[f'/data/set-{i:05d}-of-00003' for i in range(3)])
  yield 'at sign in a folder only', v(path='/d@ta/set', files=['/d@ta/set'])
  for r in (1, 2, 'sym'):
    yield f'repeat {r}', v(repeat=inp('repeat') if r == 'sym' else r)
  for n in (1, 2, 3):
    bd = tuple(inp(f'batch{k}') for k in range(n))
    for drop in (True, False):
      yield f'{n} batch dimensions, drop={drop}', v(batch=bd, drop=drop)
      yield f'{n} batch dimensions by object, drop={drop}', v(batch=bd, drop=drop, scenario=False, seed=3)
  yield 'by object', v(scenario=False)
  for d in (True, False):
    yield f'deterministic {d}', v(deterministic=d, seed=5, batch=(inp('batch0'),))
  yield 'data service', v(service='grpc://host:5000')
  yield 'data service, shuffled batches', v(service='grpc://host:5000', seed=1, batch=(4, 8), drop=False, deterministic=False, repeat=3)


def settings(w, o):
  return dict(path=o['path'], data_format=w.enum('waymax.config.DataFormat', 'TFRECORD'), shuffle_seed=o['seed'], shuffle_buffer_size=o['buffer'], repeat=o['repeat'],
              batch_dims=o['batch'], num_shards=o['shards'], deterministic=o['deterministic'], drop_remainder=o['drop'], tf_data_service_address=o['service'],
              batch_by_scenario=o['scenario'])


def dataset(c):
  runs = [(lb, dict(o, buffer=inp('buffer'), shards=inp('shards'))) for lb, o in variants()]
  # The same with the smallest and ordinary numbers in place of arbitrary ones.
  for buf, sh in ((1, 1), (100, 4), (7, 2)):
    for lb, o in variants():
      o = dict(o, buffer=buf, shards=sh, batch=tuple(x if isinstance(x, int) else 1 + k + sh for k, x in enumerate(o['batch'])))
      runs.append((f'{lb}, {sh} loaders', dict(o, repeat=o['repeat'] if o['repeat'] is None or isinstance(o['repeat'], int) else sh)))
  for label, o in runs:
    w = c.world()
    files = Files(w)
    pre = Native('preprocess', lambda x: x)
    ok, ds = c.run(w, 'dataset', label, lambda: w.call(DU + 'tf_examples_dataset', preprocess_fn=pre, **settings(w, o)))
    if ok:
      pipeline(c, w, files, label, ds, o, pre, lambda f: calls_through(c, w, label, f, pre))
  w = c.world()
  Files(w)
  c.raises(w, 'format', 'an unknown data format', lambda: w.call(DU + 'tf_examples_dataset', path='/p', data_format='CSV', preprocess_fn=None), ('ValueError',))


def calls_through(c, w, label, f, pre):
  """The mapped function is the given one (or passes its argument on to it)."""
  if f is pre:
    c.ok('parse', f'{label}: every record is parsed by the given function')
    return
  tok = Opq('record')
  ok, r = c.run(w, 'parse', f'{label}: mapped function', lambda: w.it.call(f, [tok], {}))
  if ok:
    c.check(r is tok, 'parse', f'{label}: every record is parsed by the given function', detail=repr(r)[:100])


def names(c):
  """File names of a sharded path."""
  for base in ('/data/set', 'gs:///bucket/train.tfrecord'):
    for n in (1, 2, 9, 10, 11, 99, 150, 1000):
      w = c.world()
      ok, got = c.run(w, 'sharded-names', f'{base}@{n}', lambda: w.call(DU + 'generate_sharded_filenames', f'{base}@{n}'))
      if ok:
        got = list(w.it.iterate(got))
        want = [f'{base}-{i:05d}-of-{n:05d}' for i in range(n)]
        c.check(got == want, 'sharded-names', f'{base}@{n}', detail=f'{got[:2]}…{got[-1:]} ({len(got)})')


class Calls:
  def __init__(self):
    self.made = []

  def mapper(self, kind):
    def wrap(f, *a, **k):
      def run(*x, **y):
        self.made.append((kind, k))
        return IT_call(self.w, f, x, y)
      return Native(kind, run)
    return wrap


def IT_call(w, f, a, k):
  return w.it.call(f, list(a), dict(k))


def generator(c):
  """Every option of the configuration reaches the dataset; results are mapped."""
  for label, o in variants():
    for dist in (False, True):
      for post in (True, False):
        if (dist or not post) and label not in ('plain', '2 batch dimensions, drop=False', 'data service, shuffled batches'):
          continue
        w = c.world()
        files = Files(w)
        log, made = [], Calls()
        made.w = w
        w.it.ext_hooks['jax.pmap'] = made.mapper('pmap')
        w.it.ext_hooks['jax.jit'] = made.mapper('jit')
        pre = Native('preprocess', lambda x: x)
        o2 = dict(o, buffer=inp('buffer'), shards=inp('shards'))
        cfg = w.config('DatasetConfig', distributed=dist, **settings(w, o2))
        if dist:
          o2['batch'] = (inp('devices'),) + tuple(o['batch'])
        lb = f'{label}, distributed={dist}, post={post}'
        out = Opq('result')

        def posted(x, *a):
          log.append(x)
          return out
        ok, it = c.run(w, 'generator', lb, lambda: list(w.it.iterate(w.call(DU + 'get_data_generator', cfg, pre, Native('post', posted) if post else None))))
        if not ok:
          continue
        if not c.check(len(it) == 1, 'generator', f'{lb}: one result per element', detail=repr(it)[:200]):
          continue
        if post:
          c.check(it[0] is out and len(log) == 1, 'generator', f'{lb}: each element is converted once', detail=repr(it)[:200])
          kinds = [k for k, _ in made.made]
          c.check(('pmap' in kinds) == dist, 'generator', f'{lb}: converted on every device exactly when distributed', detail=kinds)
          el = log[0] if log else None
        else:
          el = it[0]
        chain = el.chain() if isinstance(el, Opq) else []
        ds = [x for x in chain if short(x) == 'as_numpy_iterator']
        if c.check(bool(ds) and short(el) == 'iter_element', 'generator', f'{lb}: elements come from the dataset', detail=repr(el)[:200]):
          pipeline(c, w, files, lb, ds[-1].parent, o2, pre, lambda f: calls_through(c, w, lb, f, pre))


def states(c):
  """Record sizes, limits and routes of the configuration reach the parser."""
  base = dict(path='/data/plain', max_num_rg_points=A.sym(R))
  P, Q, M = t.dim('P'), t.dim('Q'), t.inp('max_objects', isint=True)
  for paths in (False, True):
    for limit in (None, 5, 128):
      for agg in (True, False):
        w = c.world()
        Files(w)
        log = []
        tf_model(w, log)
        kw = dict(base, include_sdc_paths=paths, aggregate_timesteps=agg, max_num_objects=limit)
        if paths:
          kw.update(num_paths=A.sym(P), num_points_per_path=A.sym(Q))
        cfg = w.config('DatasetConfig', **kw)
        lb = f'records[routes={paths}, objects={limit}, joined={agg}]'
        seen = {}
        w.it.module('waymax.dataloader.dataloader_utils').ns['tf_examples_dataset'] = Native('tf_examples_dataset', lambda *a, **k: seen.update(k) or Opq('dataset'))
        first = []
        w.it.ext_hooks['jax.jit'] = lambda f, *a, **k: Native('jit', lambda x, *a2: first.append((f, x)) or x)
        ok, it = c.run(w, 'records', lb, lambda: list(w.it.iterate(w.call(WL + 'simulator_state_generator', cfg))))
        if not ok or not c.check('preprocess_fn' in seen and bool(first), 'records', f'{lb}: parser and converter are set', detail=repr(seen)[:100]):
          continue
        raw = Opq('serialized')
        ok, ex = c.run(w, 'records', f'{lb} parsing', lambda: w.it.call(seen['preprocess_fn'], [raw], {}))
        if not ok:
          continue
        if c.check(len(log) == 1 and log[0][0] is raw, 'records', f'{lb}: the record itself is parsed once'):
          feats = log[0][1]
          for k, (shape, kind) in table(128, R, 16, (P, Q) if paths else None).items():
            if c.check(k in feats, 'record-sizes', f'{lb}: {k} requested') and k.startswith(('road', 'path')):
              got = list(w.it.iterate(w.it.getattr(feats[k], 'shape')))
              c.check(dims_same(got, shape), 'record-sizes', f'{lb}: size of {k}', detail=f'{got} instead of {shape}')
          c.check(paths or not [k for k in feats if k.startswith('path_samples')], 'record-sizes', f'{lb}: routes only when asked for')
        if not c.check(isinstance(ex, dict), 'records', f'{lb}: features by name'):
          continue
        c.check(any('/all/' in k for k in ex) == agg, 'joined', f'{lb}: frames are joined exactly when set')
        for k in ('state/id', 'state/is_sdc'):
          if c.check(k in ex, 'limit', f'{lb}: {k}'):
            n = asarr(ex[k]).shape[0]
            c.check(A.norm_dim(n) == (128 if limit is None else min(limit, 128)), 'limit', f'{lb}: number of objects', detail=repr(n))
        if agg:
          f = first[0][0]
          ok, st = c.run(w, 'records', f'{lb} conversion', lambda: w.it.call(f, [ex], {}))
          if ok:
            c.check((field(st, 'sdc_paths') is not None) == paths, 'routes', f'{lb}: the state has routes exactly when set')
            c.check(A.norm_dim(asarr(field(field(st, 'sim_trajectory'), 'x')).shape[0]) == (128 if limit is None else min(limit, 128)), 'limit', f'{lb}: objects of the state')


def rejected(c):
  """Settings that cannot work are refused where they are written."""
  w = c.world()
  for n, k in ((1, 1), (11, 11), (10, 11), (1, 2)):
    c.run(w, 'accepted', f'{n} observed steps after {k} warm-up steps', lambda: w.config('EnvironmentConfig', init_steps=k, observation=w.config('ObservationConfig', num_steps=n)))
  for n, k in ((2, 1), (12, 11), (20, 3)):
    c.raises(w, 'rejected', f'{n} observed steps after {k} warm-up steps', lambda: w.config('EnvironmentConfig', init_steps=k, observation=w.config('ObservationConfig', num_steps=n)), ('ValueError',))
  c.run(w, 'accepted', 'no observation settings', lambda: w.config('EnvironmentConfig', init_steps=1))
  routes = ('sdc_wrongway', 'sdc_progression', 'sdc_off_route')
  for ms in [(m,) for m in routes] + [('overlap', m) for m in routes] + [(m, 'log_divergence') for m in routes] + [routes]:
    mk = lambda inc: w.config('WaymaxConfig', data_config=w.config('DatasetConfig', path='/p', include_sdc_paths=inc),
                              env_config=w.config('EnvironmentConfig', metrics=w.config('MetricsConfig', metrics_to_run=ms)))
    c.raises(w, 'rejected', f'{ms} without routes', lambda: mk(False), ('ValueError',))
    c.run(w, 'accepted', f'{ms} with routes', lambda: mk(True))
  for ms in ((), ('overlap',), ('log_divergence', 'overlap', 'offroad', 'kinematic_infeasibility')):
    c.run(w, 'accepted', f'{ms} without routes', lambda: w.config('WaymaxConfig', data_config=w.config('DatasetConfig', path='/p'),
                                                                    env_config=w.config('EnvironmentConfig', metrics=w.config('MetricsConfig', metrics_to_run=ms))))
  for kw in (dict(num_paths=3), dict(num_points_per_path=4), {}):
    w = c.world()
    tf_model(w)
    Files(w)
    cfg = w.config('DatasetConfig', path='/p', include_sdc_paths=True, **kw)
    c.raises(w, 'rejected', f'routes with only {sorted(kw)} known', lambda: w.call(WL + 'preprocess_serialized_womd_data', Opq('serialized'), cfg), ('ValueError',))


def assembled(c):
  """The one-call environment passes each configuration on."""
  OT, AT = 'waymax.config.ObjectType', 'waymax.config.SimAgentType'
  dm = 'waymax.env.wrappers.dm_env_wrapper'
  def build(w, ctl, agents):
    st = w.state((), T_=20)
    st.fields['timestep'] = asarr(A.sym(t.lift(0)))
    seen = []
    w.it.module('waymax.dataloader.dataloader_utils').ns['get_data_generator'] = Native('get_data_generator', lambda *a, **k: seen.append((a, k)) or IterVal([st, st]))
    dyn = w.new('waymax.dynamics.DeltaGlobal')
    data = w.config('DatasetConfig', path='/p')
    env = w.config('EnvironmentConfig', controlled_object=w.enum(OT, ctl), sim_agents=agents)
    return dyn, data, env, seen, st
  for ctl in [m for m in w_members(c, OT) if m != 'SDC']:
    w = c.world()
    dyn, data, env, seen, _ = build(w, ctl, None)
    c.raises(w, 'rejected', f'single-agent environment for {ctl}', lambda: w.call(dm + '.make_sdc_dm_environment', dyn, data, env), ('ValueError',))
  for who in (None, (), ('SDC',), ('NON_SDC',), ('NON_SDC', 'SDC'), ('SDC', 'NON_SDC', 'NON_SDC')):
    w = c.world()
    agents = None if who is None else [w.config('SimAgentConfig', agent_type=w.enum(AT, 'IDM'), controlled_objects=w.enum(OT, m)) for m in who]
    dyn, data, env, seen, st = build(w, 'SDC', agents)
    made, order = [], []

    def actor(is_controlled_func=None, *a, **k):
      n = len(made)
      made.append(is_controlled_func)
      x = stub_actor(w, f'agent{n}')
      x.cls.ns['init'] = Native('init', lambda slf, *a, **k: order.append(n) or {'s': cell(f'agent{n}.init', (2,))})
      return x
    w.it.module('waymax.agents.waypoint_following_agent').ns['IDMRoutePolicy'] = Native('IDMRoutePolicy', actor)
    ok, r = c.run(w, 'assembled', f'agents {who}', lambda: w.call(dm + '.make_sdc_dm_environment', dyn, data, env))
    if not ok:
      continue
    inner = w.attr(r, 'stateless_env')
    c.check(inner.cls.name == 'PlanningAgentEnvironment', 'assembled', f'agents {who}: planning environment')
    c.check(w.attr(inner, 'config') is env, 'assembled', f'agents {who}: environment configuration')
    got = w.attr(inner, 'dynamics')
    got = got if got is dyn else w.attr(got, 'wrapped_dynamics')
    c.check(got is dyn, 'assembled', f'agents {who}: dynamics model', detail=repr(got)[:80])
    c.check(len(seen) == 1 and (seen[0][0][:1] == (data,) or seen[0][1].get('config') is data), 'assembled', f'agents {who}: dataset configuration')
    ok, s1 = c.run(w, 'assembled', f'agents {who}: reset', lambda: w.m(inner, 'reset', st))
    if ok:
      n = len(who or ())
      if len(made) == n:
        c.check(order == list(range(n)), 'assembled', f'agents {who}: in the given order', detail=order)
      sdc = asarr(field(field(st, 'object_metadata'), 'is_sdc'))
      for k, (m, f) in enumerate(zip(who or (), made)):
        ok, v = c.run(w, 'assembled', f'agents {who}: mask {k}', lambda: w.it.call(f, [st], {}))
        if ok:
          c.arr('assembled', f'agents {who}: mask {k}', v, (lambda *i: sdc.fn(i)) if m == 'SDC' else (lambda *i: t.bnot(sdc.fn(i))), shape=(N,))
      c.check(len(field(s1, 'sim_agent_actor_states')) == n, 'assembled', f'agents {who}: one agent per entry', detail=repr(field(s1, 'sim_agent_actor_states'))[:80])


def w_members(c, path):
  w = c.world()
  return list(w.get(path).members)


def presets(c):
  """Every named dataset points at the release and split of its name."""
  import re
  w = c.world()
  for name, v in sorted(w.it.module('waymax.config').ns.items()):
    m = re.fullmatch(r'WOD_(\d+)_(\d+)_(\d+)_([A-Z]+)', name)
    if not m or not isinstance(v, Obj):
      continue
    path = w.attr(v, 'path')
    a, b, d, split = m.groups()
    split = {'TEST': 'testing'}.get(split, split.lower())
    c.check(isinstance(path, str) and f'_v_{a}_{b}_{d}/' in path and f'/{split}/{split}_' in path, 'presets', f'{name}: path of its release and split', detail=path)
    c.check(w.attr(v, 'data_format') is w.enum('waymax.config.DataFormat', 'TFRECORD'), 'presets', f'{name}: format')
    # Releases before 1.2 sample 20000 road points per record, later ones 30000.
    c.check(w.attr(v, 'max_num_rg_points') == (20000 if (int(a), int(b)) < (1, 2) else 30000), 'presets', f'{name}: road points per record', detail=repr(w.attr(v, 'max_num_rg_points')))


PARTS = [('dataset', dataset), ('file names', names), ('generator', generator), ('records', states), ('rejected', rejected), ('assembled', assembled), ('presets', presets)]
