// parses a JavaScript file and prints its ESTree with positions
var acorn = require(process.env.ACORN_DIR || '/opt/veriftools/node/node_modules/acorn');
var fs = require('fs');
var src = fs.readFileSync(process.argv[2], 'utf8');
var ast = acorn.parse(src, {ecmaVersion: 'latest', sourceType: 'script', locations: true, allowHashBang: true, allowReturnOutsideFunction: true});
process.stdout.write(JSON.stringify(ast, function(k, v) {
	if(k == 'end' || k == 'start') return undefined;
	if(k == 'loc') return v.start.line;
	if(typeof v == 'bigint') return {bigint: v.toString()};
	if(v instanceof RegExp) return undefined;
	return v;
}));
