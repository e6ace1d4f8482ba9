// Answers requests (one JSON per line on stdin) about node-gyp's own modules; replies as JSON lines on fd 3.
'use strict'
const fs = require('fs')
const path = require('path')
const readline = require('readline')
const REPO = process.env.VERIF_REPO || '/repo'
const lib = (m) => require(path.join(REPO, 'lib', m))
// as if on another platform: only node-gyp's own modules see it, what they depend on is loaded before
const vs = { calls: [], info: {} }
if (process.env.VERIF_PLATFORM) {
  const req = require('module').createRequire(path.join(REPO, 'lib', 'x.js'))
  for (const m of ['os', 'http', 'https', 'tls', 'net', 'url', 'stream', 'zlib', 'crypto', 'events', 'util', 'child_process', 'graceful-fs', 'which', 'tinyglobby',
    'tar', 'make-fetch-happen', 'env-paths', 'semver', 'nopt', 'proc-log', 'exponential-backoff']) {
    try { req(m) } catch {}
  }
  Object.defineProperty(process, 'platform', { value: process.env.VERIF_PLATFORM, configurable: true, writable: true, enumerable: true })
  lib('find-python').findPython = async (p) => p
  lib('find-visualstudio').findVisualStudio = async (semver, wanted) => {
    vs.calls.push([semver ? semver.version : null, wanted === undefined ? null : wanted])
    if (vs.info.error) throw new Error(vs.info.error)
    return vs.info
  }
}
const BASE_ENV = { ...process.env }

function setEnv (env) {
  for (const k of Object.keys(process.env)) if (!(k in BASE_ENV)) delete process.env[k]
  for (const k of Object.keys(BASE_ENV)) if (process.env[k] !== BASE_ENV[k]) process.env[k] = BASE_ENV[k]
  for (const [k, v] of Object.entries(env || {})) {
    if (v === null) delete process.env[k]
    else process.env[k] = v
  }
}

function setProc (p) {
  for (const k of ['platform', 'arch', 'version', 'execPath']) {
    if (!(k in ORIG)) ORIG[k] = process[k]
    Object.defineProperty(process, k, { value: p && p[k] !== undefined ? p[k] : ORIG[k], configurable: true, writable: true, enumerable: true })
  }
}
const ORIG = {}

const ops = {
  // parse command lines exactly as bin/node-gyp.js does
  parse ({ argv, env }) {
    setEnv(env)
    const prog = lib('node-gyp')()
    const logger = lib('log').logger
    logger.level = 'info'
    prog.parseArgv(['/usr/bin/node', '/x/node-gyp', ...argv])
    const opts = {}
    for (const k of Object.keys(prog.opts)) if (k !== 'argv') opts[k] = prog.opts[k]
    return { todo: prog.todo.map(t => ({ name: String(t.name), args: t.args.map(a => typeof a === 'string' ? a : { bad: String(a) }) })), opts, level: logger.level ? logger.level.id : null }
  },
  async config ({ opts, buildDir, nodeDir, vsInfo, python, proc, base }) {
    setEnv()
    const prog = lib('node-gyp')()
    prog.opts = opts
    const { createConfigGypi } = lib('create-config-gypi')
    setProc(proc)
    const saved = Object.getOwnPropertyDescriptor(process, 'config')
    if (base) Object.defineProperty(process, 'config', { value: base, configurable: true, writable: true })
    try {
      return { path: await createConfigGypi({ gyp: prog, buildDir, nodeDir, vsInfo, python }) }
    } finally {
      setProc(null)
      Object.defineProperty(process, 'config', saved)
    }
  },
  processConfig () { return JSON.parse(JSON.stringify(process.config)) },
  release ({ argv, opts, env, version, rel }) {
    setEnv(env)
    const r = lib('process-release')(argv, { opts }, version, rel)
    delete r.semver
    return r
  },
  async python ({ configPython, env, win, exes, locations, launcher }) {
    const F = lib('find-python')
    const log = lib('log')
    log.logger.level = 'silly'
    const f = new F(configPython)
    f.env = env
    f.win = win
    if (locations) f.winDefaultLocations = locations
    if (launcher) f.pyLauncher = launcher
    const calls = []
    f.execFile = async (exec, args, o) => {
      calls.push([exec, args, !!(o && o.shell), o && o.env ? o.env.TERM : null])
      const what = args.includes('-3') ? 'launch' : /sys\.executable/.test(args.join(' ')) ? 'path' : /version_info/.test(args.join(' ')) ? 'version' : 'other'
      const key = o && o.shell ? exec.replace(/^"(.*)"$/, '$1') : exec
      const e = exes[key]
      const a = e && e[what]
      if (!a) return [Object.assign(new Error('spawn ' + exec + ' ENOENT'), { code: 'ENOENT' }), '', '']
      if (a.throws) throw new Error(a.throws)
      if (a.fails) return [Object.assign(new Error('Command failed: ' + exec), { code: a.fails }), a.out || '', a.err || '']
      return [null, a.out, a.err || '']
    }
    const lines = []
    const saved = log.logger.stream
    log.logger.stream = { write: (s) => { lines.push(s) } }
    const res = { calls }
    try {
      res.found = await f.findPython()
    } catch (e) { res.error = e instanceof Error ? e.message : String(e); res.log = f.errorLog }
    log.logger.stream = saved
    log.logger.level = 'info'
    res.shown = lines.filter(l => /^gyp ERR!/.test(l)).join('')
    return res
  },
  async vs ({ semver, config, env, arch, exists, ps, setup, reg }) {
    setEnv(env)
    setProc({ arch })
    const F = lib('find-visualstudio')
    const f = new F({ major: semver, minor: 0, patch: 0 }, config)
    const calls = []
    f.msBuildPathExists = (p) => exists.includes(p)
    f.regSearchKeys = async (keys, value, opts) => {
      calls.push(['reg', keys, value, opts])
      for (const k of keys) {
        const v = reg[k + '|' + value + '|' + opts.join(',')]
        if (v !== undefined) return v
      }
      if (reg.throws) throw new Error('reg failed')
      return undefined
    }
    f.execFile = async (exec, args) => {
      const t = args.join(' ')
      let a
      if (/Get-Module/.test(t)) { calls.push(['module']); a = setup ? { out: '2.2.16\r\n' } : { fails: 1 } } else if (/Get-VSSetupInstance/.test(t)) { calls.push(['setup', t]); a = setup } else { calls.push(['ps']); a = ps }
      if (a.fails) return [Object.assign(new Error('Command failed'), { code: a.fails }), a.out || '', a.err || '']
      return [null, a.out, a.err || '']
    }
    const res = { calls }
    try { res.found = await f.findVisualStudio() } catch (e) { res.error = e.message; res.isError = e instanceof Error; res.log = f.errorLog; res.stack = e.stack } finally { setProc(null) }
    return res
  },
  async reg ({ root, keys, value, opts, one }) {
    setEnv({ SystemRoot: root })
    const u = lib('util')
    const r = one ? await u.regGetValue(keys[0], value, opts).then(v => ({ value: v }), e => ({ failed: e instanceof Error ? e.message : 'not an error' }))
      : { value: await u.regSearchKeys(keys, value, opts) }
    return r.value === undefined && !r.failed ? {} : r
  },
  nodeRoot ({ script, proc }) {
    return lib('find-node-directory')(script, proc)
  },
  accessible ({ dir, candidates }) {
    const r = lib('util').findAccessibleSync('x', dir, candidates)
    return r === undefined ? null : r
  },
  // one whole invocation of the command line, except for its output and exit status
  async run ({ argv, cwd, env, proc, config, vsInfo, props }) {
    vs.calls = []
    vs.info = vsInfo || {}
    const saved = Object.getOwnPropertyDescriptor(process, 'config')
    for (const m of ['configure', 'build', 'install', 'remove', 'clean', 'list', 'rebuild']) lib(m)
    setEnv(env)
    setProc(proc)
    if (config) Object.defineProperty(process, 'config', { value: config, configurable: true, writable: true })
    for (const k of Object.keys(props || {})) process[k] = props[k]
    process.chdir(cwd)
    lib('log').logger.level = 'info'
    const prog = lib('node-gyp')()
    prog.parseArgv(['node', 'node-gyp', ...argv])
    prog.devDir = (prog.opts.devdir || '').replace(/^~/, require('os').homedir())
    if (prog.opts.directory) process.chdir(prog.opts.directory)
    const done = []
    try {
      while (prog.todo.length) {
        const c = prog.todo.shift()
        const v = await prog.commands[c.name](c.args)
        done.push([c.name, v === undefined ? null : v])
      }
      return { done, vsCalls: vs.calls }
    } catch (e) {
      return { done, vsCalls: vs.calls, failed: e && e.message !== undefined ? String(e.message) : String(e), isError: e instanceof Error }
    } finally {
      setProc(null)
      for (const k of Object.keys(props || {})) delete process[k]
      if (config) Object.defineProperty(process, 'config', saved)
      process.chdir('/')
    }
  },
  async download ({ argv, env, url }) {
    setEnv(env)
    lib('log').logger.level = 'info'
    const prog = lib('node-gyp')()
    prog.parseArgv(['node', 'node-gyp', 'install', ...argv])
    try {
      const res = await lib('download').download(prog, url)
      return { status: res.status, text: await res.text(), version: prog.version }
    } catch (e) {
      return { failed: String(e && e.message), code: (e && e.code) || null, isError: e instanceof Error }
    }
  },
  log ({ steps }) {
    const l = lib('log')
    const { logger } = l
    const saved = logger.stream
    const chunks = []
    const streams = {}
    for (const [name, props] of [['plain', {}], ['tty', { isTTY: true }], ['other', { isTTY: false }]]) {
      streams[name] = { ...props, write (s) { chunks.push([name, s]) } }
    }
    streams.none = null
    streams.broken = { isTTY: true }
    const seen = []
    try {
      for (const [what, a, b, c] of steps) {
        if (what === 'level') logger.level = a
        else if (what === 'stream') logger.stream = streams[a]
        else if (what === 'pause') l.pause()
        else if (what === 'resume') l.resume()
        else if (what === 'prefixed') l.withPrefix(b)[a](...c)
        else l[a](b, ...c)
        seen.push([logger.level ? logger.level.id : null, chunks.length])
      }
    } finally {
      logger.stream = null
      l.resume()
      logger.stream = saved
      logger.level = 'info'
    }
    return { chunks, seen }
  },
  async ca ({ file }) {
    return await lib('download').readCAFile(file)
  }
}

const log = lib('log')
log.logger.stream = null
log.resume()
const rl = readline.createInterface({ input: process.stdin })
let queue = Promise.resolve()
process.on('uncaughtException', (e) => {
  fs.writeSync(3, JSON.stringify({ fatal: true, error: 'uncaught exception: ' + (e && e.message), stack: String(e && e.stack) }) + '\n')
  process.exit(1)
})
rl.on('line', (line) => {
  queue = queue.then(async () => {
    const req = JSON.parse(line)
    let out
    try {
      out = { ok: await ops[req.op](req) }
      if (out.ok === undefined) out.ok = null
    } catch (e) {
      out = { error: e && e.message !== undefined ? String(e.message) : String(e), stack: String((e && e.stack) || '') }
    }
    fs.writeSync(3, JSON.stringify(out) + '\n')
  })
})
