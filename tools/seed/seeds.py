S='src/scanner/'
SEEDS=[
dict(id='s01',prop='P04',edits=[(S+'scalar/flow.rs','let mut lines: usize;','let mut lines: u8;'),(S+'scalar/flow.rs','lines += 1;','lines = lines.saturating_add(1);')],
 cases=['"a'+'\n'*300+'b"\n'],needs='a quoted scalar with more than 256 consecutive line breaks',breaks='the count of kept line feeds is capped at 254'),
dict(id='s02',prop='P17',edits=[(S+'mod.rs','key_stats.read + 1024 < self.stats.read','key_stats.read + 1024 <= self.stats.read')],
 cases=['a: 1\n"'+'k'*1022+'": v\n'],needs='an implicit key whose colon comes exactly 1024 bytes after its start',breaks='a key within the limit is rejected'),
dict(id='s03',prop='P14',edits=[('src/event/parser/mod.rs','let tags = doc.directives.tags.iter().map(tags_to_owned).collect();\n\n            self.directives = Directives { version, tags };','self.directives.version = version;\n            self.directives.tags.extend(doc.directives.tags.iter().map(tags_to_owned));')],
 cases=['%TAG !e! tag:e:\n---\na\n...\n---\n!e!x b\n'],needs='a later document that uses a handle only an earlier one declared',breaks='handles leak into following documents instead of being rejected'),
dict(id='s05',prop='P09',edits=[('src/event/parser/mod.rs','if tags.get(&handle).is_some()','if tags.get(&handle).map_or(false, |old| *old != prefix)')],
 cases=['%TAG !e! tag:e:\n%TAG !e! tag:e:\n---\na\n'],needs='a handle declared twice with the same prefix',breaks='the duplicate declaration is accepted'),
dict(id='s06',prop='P11',edits=[(S+'mod.rs','cache!(~base, 4, opts)?;','cache!(~base, 3, opts)?;')],
 modes='mem step=100000 step=7',cases=['#'+'x'*n+'\n---a\n' for n in (8186,8187,8188,16378,16379,16380)],needs='a plain scalar starting with --- at the start of a line, split by the chunk boundary after its third byte',breaks='it is read as a document marker'),
dict(id='s07',prop='P08',edits=[('src/event/parser/mod.rs','EventData::MappingStart(node) => validate_tag(tags, &mut node.tag, false),\n        ','')],
 cases=['!e!x {a: b}\n','- !e!x\n  a: b\n'],needs='an undeclared handle on a mapping',breaks='the tag is accepted'),
dict(id='s08',prop='P07',edits=[(S+'scalar/escape.rs','v if v <= 0x7FF =>','v if v < 0x7FF =>')],
 cases=['"\\u07ff"\n'],needs='an escape for U+07FF',breaks='it is encoded as an overlong sequence (panics)'),
dict(id='s09',prop='P03',edits=[(S+'mod.rs','[BLOCK_ENTRY, ..] if isWhiteSpaceZ!(~base, 1) =>','[BLOCK_ENTRY, ..] if isWhiteSpace!(~base, 1) =>')],
 cases=['- a\n-','k:\n- a\n-'],needs='a block sequence whose last entry indicator is the last byte of the stream',breaks='the final empty entry is lost or rejected'),
dict(id='s12',prop='P12',edits=[('src/error.rs','SourceError::UTF8(_) => Category::Data','SourceError::UTF8(_) => Category::IO')],
 cases=[b'a: \xff\n'],modes='step=100000',needs='a source with invalid UTF8',breaks='it is reported as an IO error'),
dict(id='s13',prop='P15',edits=[(S+'scalar/flow.rs','&& check!(~buffer => [BACKSLASH, ..])\n                && isBreak!(~buffer, 1)','&& check!(~buffer => [BACKSLASH, b\'\\n\', ..] | [BACKSLASH, b\'\\r\', b\'\\n\', ..])')],
 cases=['"a\\\rb"\n'],needs='an escaped line break that is a lone carriage return',breaks='it is rejected as an unknown escape'),
dict(id='s14',prop='P16',edits=[(S+'mod.rs',"_ if comments && check!(~buffer => b'#') => chomp_line = true","_ if check!(~buffer => b'#') => chomp_line = true")],
 cases=['%TAG !e! #c\n t:\n---\n!e!x a\n','%YAML #c\n 1.2\n---\na\n'],needs='a comment inside a directive',breaks='the comment is skipped and the directive continued on the next line'),
dict(id='s15',prop='P17',edits=[(S+'mod.rs','key_stats.read + 1024 < self.stats.read','((self.stats.read - key_stats.read) as u16) > 1024')],
 cases=['a: 1\n"'+'k'*65600+'": v\n'],needs='an implicit key just over 64KiB long',breaks='the length wraps and the key is accepted'),
dict(id='s17',prop='P14',edits=[('src/event/parser/mod.rs','VersionDirective | TagDirective | DocumentStart | DocumentEnd | StreamEnd\n','VersionDirective | DocumentStart | DocumentEnd | StreamEnd\n')],
 cases=['---\n%TAG !e! t:\n---\na\n'],needs='an empty explicit document followed by a tag directive',breaks='the empty document is rejected'),
dict(id='s19',prop='P09',edits=[(S+'directive.rs','let v = atoi(v_slice).ok_or(ScanError::InvalidVersion)?;','let v = atoi::<u16>(v_slice).ok_or(ScanError::InvalidVersion)? as u8;')],
 cases=['%YAML 1.258\n---\na\n','%YAML 257.2\n---\na\n'],needs='a version component between 256 and 65535',breaks='it is truncated instead of rejected'),
dict(id='s20',prop='P08',edits=[(S+'tag.rs',"b',', ..] | [b'[', ..] | [b']', ..] if verbatim =>\n            {\n                if !*can_borrow\n                {\n                    scratch.push(buffer.as_bytes()[0]);\n                }\n","b',', ..] | [b'[', ..] | [b']', ..] if verbatim =>\n            {\n")],
 cases=['!<t:%41[b],c> a\n','%TAG !e! t:%41,b\n---\n!e!x a\n'],needs='a verbatim tag or prefix with an escape before a comma or bracket',breaks='the comma or bracket is dropped'),
dict(id='s21',prop='P01',edits=[(S+'context.rs','let new = self.flow.checked_sub(1).ok_or(ScanError::IntOverflow)?;','let new = self.flow - 1;')],
 cases=[']\n','a: ]\n','[a]]\n'],needs='an unmatched flow end',breaks='panics'),
dict(id='s22',prop='P05',edits=[(S+'scalar/plain.rs','outdent = block_context && local_stats.column < indent;\n\n        // Handle line joins as needed','outdent = block_context && lines > 0 && local_stats.column <= indent && local_stats.column < indent && lines < 64;\n\n        // Handle line joins as needed')],
 cases=['a: b'+'\n'*70+'c: d\n','- b'+'\n'*70+'- d\n'],needs='a plain scalar followed by more than 63 blank lines',breaks='the next node is folded into the scalar'),
dict(id='s24',prop='P16',edits=[(S+'scalar/block.rs','    if comments && check!(~buffer => b\'#\')\n    {\n        while !isBreakZ!(~buffer)','    if comments && check!(~buffer => b\'#\')\n    {\n        while !check!(~buffer => [] | [b\'\\n\', ..] | [b\'\\r\', b\'\\n\', ..])')],
 cases=['a: | # c\r  x\rb: d\r','a: > # c\u2028  x\u2028b: d\n'],needs='a comment after a block scalar header, in a stream whose breaks are not line feeds',breaks='the comment swallows the content'),
dict(id='s25',prop='P07',edits=[(S+'scalar/escape.rs','0x80 | ((v >> 12) & 0x3F) as u8','0x80 | ((v >> 12) & 0x1F) as u8')],
 cases=['"\\U00020000 \\U00030000 \\U0010FFFF"\n'],needs='an escape for a supplementary character with bit 17 set',breaks='another character is produced'),
dict(id='u01',prop='P06',edits=[(S+'scalar/block.rs','more_indented = isBlank!(~buffer);',"more_indented = check!(~buffer => b' ');")],
 cases=['a: >\n  x\n  \ty\n  z\n'],needs='a folded scalar with a line led by a tab',breaks='the breaks around it are folded'),
dict(id='u02',prop='P06',edits=[(S+'scalar/block.rs','n @ 0 | n @ 1 => scalar','n @ 0 | n @ 1 | n @ 2 => scalar')],
 cases=['a: |+\n  x\n \nb: c\n'],needs='a kept single line followed by one blank line that holds a space',breaks='the space is taken for the line feed'),
dict(id='u03',prop='P01',edits=[(S+'scalar/flow.rs','advance!(buffer, :stats, 1 + widthOf!(~buffer, 1));','advance!(buffer, :stats, 2);')],
 modes='mem mem+lazy',cases=['"a\\\u00e9"\n'],needs='lazy reading of a backslash before a character of several bytes',breaks='panics'),
dict(id='u04',prop='P10',edits=[(S+'scalar/plain.rs','true => 1 + widthOf!(~buffer, 1),','true => 2,')],
 modes='mem mem+lazy',cases=['a:\u2028 b\n'],needs='lazy reading of a plain key whose colon is followed by a break of several bytes',breaks='panics where eager reading succeeds'),
dict(id='u05',prop='P13',edits=[(S+'mod.rs','        else\n        {\n            advance!(buffer, :stats, widthOf!(~buffer));\n        }\n    }\n\n    Ok(base.len() - buffer.len())','        else\n        {\n            let width = widthOf!(~buffer);\n            advance!(buffer, width);\n            stats.update(1, 0, 1);\n        }\n    }\n\n    Ok(base.len() - buffer.len())')],
 modes='mem+marks',cases=['# \u00e9\na: b\n'],needs='a comment with a character of several bytes',breaks='all later positions are too small'),
dict(id='u07',prop='P03',edits=[('src/event/parser/mod.rs','Marker::Value | Marker::FlowEntry | Marker::FlowSequenceEnd\n        );','Marker::Value | Marker::FlowSequenceEnd\n        );')],
 cases=['[ ? , a]\n'],needs='an empty explicit key before a comma in a flow sequence',breaks='the pair is rejected'),
dict(id='u08',prop='P02',edits=[('src/event/parser/mod.rs',"""            // therefore a value is automatically implied, regardless of what token follows.
            _ =>
            {
                state!(~self, -> State::BlockMappingKey(O_NIL));
                event = self.empty_scalar(end, kind).map(Some)?;""","""            // therefore a value is automatically implied, regardless of what token follows.
            _ =>
            {
                state!(~self, -> State::BlockMappingKey(O_NIL));
                event = self.empty_scalar(end, NodeKind::Key).map(Some)?;""")],
 cases=['? a\n? b\n'],needs='an explicit key without a value',breaks='the implied value is reported as a key'),
dict(id='u09',prop='P11',edits=[(S+'scalar/flow.rs',"            // Longest sequence we can hit is 2 characters ('')\n            cache!(~buffer, 2, opts)?;","            cache!(~buffer, 1, opts)?;")],
 modes='mem step=100000 step=7',cases=["'"+'x'*n+"''b'\n" for n in (8186,8187,8188,8189,8190,8191,16380,16381,16382,16383)],needs="a doubled single quote split between two buffers",breaks='the scalar ends at the first quote'),
dict(id='u10',prop='P11',edits=[(S+'scalar/plain.rs',"""        while !isWhiteSpaceZ!(~buffer)
        {
            cache!(~buffer, 2, opts)?;

            if is_value_indicator(buffer, flow_context)
                || flow_context && flow_indicator(buffer, 0)
            {
                break;""","""        while !isWhiteSpaceZ!(~buffer)
        {
            cache!(~buffer, 1, opts)?;

            if is_value_indicator(buffer, flow_context)
                || flow_context && flow_indicator(buffer, 0)
            {
                break;""")],
 modes='mem step=100000 step=7',cases=['- '+'x'*n+':b\n' for n in (8186,8187,8188,8189,8190,16380,16381,16382,16383)],needs='a colon inside a plain scalar as the last byte of a buffer',breaks='the scalar ends there'),
dict(id='u12',prop='P12',edits=[('src/reader/owned.rs','    let amt = src.read_to_end(buf)?;\n','    let amt = match src.read_to_end(buf)\n    {\n        Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => 0,\n        amt => amt?,\n    };\n')],
 modes='step=5+fail=5+eof',cases=['a: b\nc: d\n'],needs='a source that fails with the kind UnexpectedEof',breaks='the failure is taken for the end of the source'),
dict(id='u13',prop='P15',edits=[(S+'scalar/block.rs',"&& !check!(~base, end => b'\\n')","&& check!(~base, end => [b'\\r', b'\\n', ..])")],
 cases=['a: |\r  x\r'],needs='a single line block scalar that ends with a lone CR',breaks='the CR is kept in the content'),
dict(id='u17',prop='P17',edits=[(S+'mod.rs','&& (key_stats.lines < self.stats.lines ||','&& ((key_stats.lines < self.stats.lines && self.context.is_block()) ||')],
 cases=['{"a\n b": c}\n','[a\n b: c]\n'],needs='a key over two lines in a flow collection',breaks='it is accepted'),
dict(id='u18',prop='P14',edits=[(S+'mod.rs','        self.unroll_indent(tokens, STARTING_INDENT)?;\n\n        // Reset saved key\n        self.remove_saved_key()?;\n\n        // A key cannot follow','        self.unroll_indent(tokens, STARTING_INDENT)?;\n\n        // A key cannot follow')],
 cases=['"a"\n--- : b\n','a\n... : b\n','- "a"\n--- \n: b\n'],needs='a document marker',breaks='a key saved before the marker is used behind it'),
dict(id='u19',prop='P08',edits=[(S+'mod.rs','        // A key may not start after a tag (only before)\n        self.simple_key_allowed = false;\n','')],
 cases=['!t a: b\n','- !!str &x a: b\n'],needs='a tag before an implicit key',breaks='the tag goes to the mapping'),
dict(id='u20',prop='P09',edits=[('src/event/parser/mod.rs','Marker::DocumentStart => pop!(tokens).map(|entry| entry.read_at()),\n','Marker::DocumentStart => pop!(tokens).map(|entry| entry.read_at()),\n                Marker::StreamEnd => Ok(start),\n')],
 cases=['%YAML 1.2\n','a\n...\n%TAG ! x\n'],needs='directives at the end of the stream',breaks='they are accepted'),
dict(id='u21',prop='P07',edits=[(S+'scalar/escape.rs','o if (o & 0xF8) == 0xF0 => 4,','o if (o & 0xF8) == 0xF0 && o < 0xF4 => 4,')],
 cases=['!<%F4%80%80%80> a\n'],needs='a percent escape in plane 16',breaks='it is rejected'),
dict(id='u22',prop='P18',edits=[('src/reader/owned.rs','        self.tail.push(old);','        self.tail.push(old);\n\n        // Nothing refers that far back\n        if self.tail.len() > 3\n        {\n            self.tail.remove(0);\n        }')],
 modes='step=100000+retain',cases=[''.join('- '+'abcdefgh'[k%8]*3000+'\n' for k in range(120))],needs='events kept over five refills of the buffer',breaks='the buffers they borrow from are freed'),
dict(id='u23',prop='P05',edits=[(S+'scalar/plain.rs',"b',' | b'[' | b']' | b'{' | b'}'","b',' | b'[' | b']' | b'}'")],
 cases=['[a{b]\n','[a: b{c]\n'],needs='an opening brace inside a plain scalar of a flow collection',breaks='it does not end the scalar'),
dict(id='u24',prop='P04',edits=[(S+'scalar/flow.rs','if let Some(EscapeState::Start) = escaped_break','if escaped_break.is_some()')],
 cases=['"a\\\n  \n b"\n'],needs='an escaped break followed by a blank line that holds spaces',breaks='the spaces are kept'),
dict(id='u25',prop='P01',edits=[(S+'scalar/block.rs',"    if comments && check!(~buffer => b'#')\n    {\n        while !isBreakZ!(~buffer)","    if comments && check!(~buffer => b'#')\n    {\n        while !isBreak!(~buffer)")],
 cases=['a: | # c'],needs='a comment behind a block header that ends the input',breaks='panics'),
dict(id='u26',prop='P16',edits=[(S+'mod.rs','        if stats.lines != 0\n        {\n            self.simple_key_allowed = true;','        if stats.lines == 1\n        {\n            self.simple_key_allowed = true;')],
 cases=['a: 1\n\nb: 2\n'],needs='a blank line or comment between entries',breaks='the next key is rejected'),
dict(id='u27',prop='P10',edits=[(S+'scalar/block.rs','        opts & !O_EXTENDABLE,\n        slice,\n        stats.clone(),\n        base_indent,','        opts & !O_EXTENDABLE,\n        slice,\n        stats.clone(),\n        indent,')],
 modes='mem mem+lazy',cases=['a: |\n  x\n','a: |1\n  x\n','- a: |2\n     x\n   y\n'],needs='lazy reading of a block scalar with an explicit indentation',breaks='evaluation uses the wrong indentation'),
dict(id='u28',prop='P02',edits=[('src/event/parser/mod.rs','            event = self.node(tokens, !BLOCK_CONTEXT, kind)?;\n        }\n        // Otherwise it must be an empty, implied value','            event = self.node(tokens, !BLOCK_CONTEXT, NodeKind::Entry)?;\n        }\n        // Otherwise it must be an empty, implied value')],
 cases=['[a: b]\n'],needs='a pair in a flow sequence',breaks='its value is reported as an entry'),
]
