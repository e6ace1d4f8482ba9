# prelude of the specs whose demonstration is a node script
import os
JSH = '''#!/bin/bash
export NODE_PATH="$(dirname "$(readlink -f "$(which npm)")")/../node_modules"
exec timeout 250 node "$(cd "$(dirname "$0")" && pwd)/demo.js"
'''
DEMO = JSH
JSPRE = '''const fs = require('fs'), os = require('os'), path = require('path'), assert = require('assert')
const cp = require('child_process')
const REPO = process.cwd()
const D = fs.mkdtempSync(path.join(os.tmpdir(), 'demo-'))
process.on('exit', () => fs.rmSync(D, { recursive: true, force: true }))
for (const k of Object.keys(process.env)) if (k.toLowerCase().startsWith('npm_config_')) delete process.env[k]
const run = (args, o = {}) => cp.spawnSync(process.execPath, [path.join(REPO, 'bin/node-gyp.js')].concat(args), Object.assign({ cwd: D, encoding: 'utf8', timeout: 60000 }, o))
'''
def J(s): return {"demo.js": JSPRE + s}
