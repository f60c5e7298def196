// Reference: which warnings a post deserves, from its fields (undefined: not given), the CRC-32 (hex) and the length of
// the data.  Interpreted by checks/post.py together with index.js; never executed.
(function(f, hex, len) {
	var w = [];
	function number(v) { return /^[0-9]+$/.test(v); }
	function field(v, name, zeroAllowed) {
		if(!v) return;
		if(!number(v)) w.push('invalid_prop_' + name);
		else if(v === '0' && !zeroAllowed) w.push('zero_prop_' + name);
	}
	field(f.line, 'line'); field(f.total, 'total'); field(f.part, 'part'); field(f.size, 'size', true);
	field(f.begin, 'begin'); field(f.end, 'end');
	field(f.esize, 'size', true); field(f.epart, 'part');
	
	var total = +f.total, part = +f.part, epart = +f.epart, size = +f.size, esize = +f.esize, begin = +f.begin, end = +f.end;
	if(f.part && f.epart && f.part !== f.epart) w.push('part_number_mismatch');
	else if(f.total && ((f.part && part > total) || (f.epart && epart > total))) w.push('part_number_exceeds_total');
	
	if(f.begin && f.end) {
		if(begin > end) w.push('invalid_part_range');
		else if(!(esize === end - begin + 1)) w.push('size_mismatch_part_range');
		else if(end > size) w.push('part_range_exceeds_size');
	} else if(total > 1 || part > 1 || epart > 1) w.push('missing_part_range');
	
	if(f.pcrc32 && !/^[0-9A-Fa-f]{8}$/.test(f.pcrc32)) w.push('invalid_prop_pcrc32');
	if(f.crc32 && !/^[0-9A-Fa-f]{8}$/.test(f.crc32)) w.push('invalid_prop_crc32');
	
	if(!f.part && f.size !== f.esize) w.push('size_mismatch');
	else if(size < esize) w.push('size_mismatch');
	
	if(!(esize === len)) w.push('data_size_mismatch');
	if(f.pcrc32 && f.pcrc32.toLowerCase() !== hex) w.push('pcrc32_mismatch');
	if(f.crc32 && !f.ypart && f.crc32.toLowerCase() !== hex) w.push('crc32_mismatch');
	return w;
})
