"""Behaviour-preserving edits, used to see that the deductive stage stays quiet (run: tools/refactor/run.py)."""
E = {}
def e(name, *subs): E[name] = subs

e("anchor_loop", ("src/scanner/anchor.rs", """    loop
    {
        let i = cache!(base, @index, 1, opts)?;

        match base.get(index)
        {
            Some(b) if f(b) => index += i,
            _ => return Ok(&base[..index]),
        }
    }
""", """    let mut i = cache!(base, @index, 1, opts)?;

    while base.get(index).map_or(false, &f)
    {
        index += i;
        i = cache!(base, @index, 1, opts)?;
    }

    Ok(&base[..index])
"""))
e("anchor_helper", ("src/scanner/anchor.rs", """    if anchor.is_empty()
    {
        return Err(ScanError::InvalidAnchorName);
    }
""", """    check_name(anchor)?;
"""), ("src/scanner/anchor.rs", "fn take_while<F>", """fn check_name(name: &str) -> Result<()>
{
    if name.is_empty()
    {
        return Err(ScanError::InvalidAnchorName);
    }

    Ok(())
}

fn take_while<F>"""))
e("directive_helper", ("src/scanner/directive.rs", """            let (major, skip) = scan_directive_version(opts, buffer)?;
            advance!(*buffer, :stats, skip);
""", """            let major = read_version(opts, buffer, stats)?;
"""), ("src/scanner/directive.rs", """            let (minor, skip) = scan_directive_version(opts, buffer)?;
            advance!(*buffer, :stats, skip);
""", """            let minor = read_version(opts, buffer, stats)?;
"""), ("src/scanner/directive.rs", "fn take_while<F>", """fn read_version<'de>(opts: Flags, buffer: &mut &'de str, stats: &mut MStats) -> Result<u8>
{
    let (version, skip) = scan_directive_version(opts, buffer)?;
    advance!(*buffer, :stats, skip);

    Ok(version)
}

fn take_while<F>"""))
e("plain_merge_breaks", ("src/scanner/scalar/plain.rs", """        if buffer.is_empty()
        {
            break 'scalar;
        }

        if outdent
        {
            break 'scalar;
        }
""", """        if buffer.is_empty() || outdent
        {
            break 'scalar;
        }
"""))
e("plain_join", ("src/scanner/scalar/plain.rs", """            1 =>
            {
                // Note that we reset whitespace to zero here, so that the
                // post loop truncate doesn't remove characters we've
                // already removed here
                scratch.truncate(scratch.len() - whitespace);
                whitespace = 0;

                scratch.push(SPACE);
            },
            // Else we need to append (n - 1) newlines, as we skip the origin line's break
            _ =>
            {
                // Similarly, we reset whitespace here, but we _also_ set
                // lines to the amount of lines we actually add to the
                // scratch space.
                scratch.truncate(scratch.len() - whitespace);
                whitespace = 0;
                lines -= 1;

                // Safety: we can only reach this branch if lines > 1
                for _ in 0..lines
                {
                    scratch.push(NEWLINE)
                }
            },
""", """            _ =>
            {
                scratch.truncate(scratch.len() - whitespace);
                whitespace = 0;

                if lines == 1
                {
                    scratch.push(SPACE);
                }
                else
                {
                    lines -= 1;

                    for _ in 0..lines
                    {
                        scratch.push(NEWLINE)
                    }
                }
            },
"""))
e("plain_helper", ("src/scanner/scalar/plain.rs", """                lines -= 1;

                // Safety: we can only reach this branch if lines > 1
                for _ in 0..lines
                {
                    scratch.push(NEWLINE)
                }
""", """                lines -= 1;

                push_lines(&mut scratch, lines);
"""), ("src/scanner/scalar/plain.rs", "pub(in crate::scanner) fn scan_plain_scalar_lazy", """fn push_lines(scratch: &mut Vec<u8>, lines: usize)
{
    for _ in 0..lines
    {
        scratch.push(NEWLINE)
    }
}

pub(in crate::scanner) fn scan_plain_scalar_lazy"""))
e("owned_if", ("src/reader/owned.rs", """            match self.inner.is_exhausted()
            {
                true => opts.remove(O_EXTENDABLE),
                false => opts.insert(O_EXTENDABLE),
            }

            match scanner.scan_tokens(opts, self.inner.data(), queue)
            {
""", """            if self.inner.is_exhausted()
            {
                opts.remove(O_EXTENDABLE);
            }
            else
            {
                opts.insert(O_EXTENDABLE);
            }

            let result = scanner.scan_tokens(opts, self.inner.data(), queue);

            match result
            {
"""))
e("owned_reorder", ("src/reader/owned.rs", """        if !self.exhausted
        {
            if let Err(e) = std::str::from_utf8(&new)
            {
                if e.error_len().is_none()
                {
                    self.partial = new.split_off(e.valid_up_to());
                }
            }
        }
""", """        if let (false, Err(e)) = (self.exhausted, std::str::from_utf8(&new))
        {
            if e.error_len().is_none()
            {
                self.partial = new.split_off(e.valid_up_to());
            }
        }
"""))
e("key_if_let", ("src/scanner/mod.rs", """        if let Some(saved) = self.key.saved().take()
        {
            if saved.key().required()
            {
                return Err(ScanError::MissingValue);
            }
        }

        Ok(())
""", """        match self.key.saved().take()
        {
            Some(saved) if saved.key().required() => Err(ScanError::MissingValue),
            _ => Ok(()),
        }
"""))
e("expire_helper", ("src/scanner/mod.rs", """            if key.allowed()
                && (key_stats.lines < self.stats.lines || key_stats.read + 1024 < self.stats.read)
            {
""", """            let stale =
                key_stats.lines < self.stats.lines || key_stats.read + 1024 < self.stats.read;

            if key.allowed() && stale
            {
"""))
e("save_key_return", ("src/scanner/mod.rs", """        if self.simple_key_allowed
        {
            self.remove_saved_key()?;

            self.key.save(self.stats.clone(), required)
        }

        Ok(())
""", """        if !self.simple_key_allowed
        {
            return Ok(());
        }

        self.remove_saved_key()?;
        self.key.save(self.stats.clone(), required);

        Ok(())
"""))
e("value_reorder", ("src/scanner/mod.rs", """                // Then push a token to the queue
                enqueue!(Token::Key, :key_stats => tokens);

                // A key cannot follow another key
                self.simple_key_allowed = false;
""", """                // A key cannot follow another key
                self.simple_key_allowed = false;

                // Then push a token to the queue
                enqueue!(Token::Key, :key_stats => tokens);
"""))
e("context_match", ("src/scanner/context.rs", """        match self.started
        {
            true => self.indent.into(),
            false => None.into(),
        }
""", """        if self.started
        {
            self.indent.into()
        }
        else
        {
            None.into()
        }
"""))
e("context_while", ("src/scanner/context.rs", """                if !self.pop_indent(&mut f)?
                {
                    break;
                }
""", """                let popped = self.pop_indent(&mut f)?;

                if !popped
                {
                    break;
                }
"""))
e("tag_helper", ("src/scanner/tag.rs", """            [b',', ..] | [b'[', ..] | [b']', ..] if verbatim =>
            {
                if !*can_borrow
                {
                    scratch.push(buffer.as_bytes()[0]);
                }
                advance!(buffer, :stats, 1);
            },
""", """            [c, ..] if verbatim && (*c == b',' || *c == b'[' || *c == b']') =>
            {
                if !*can_borrow
                {
                    scratch.push(*c);
                }
                advance!(buffer, :stats, 1);
            },
"""))
e("tag_directive_if", ("src/scanner/tag.rs", """    let token = if can_borrow
    {
        Token::TagDirective(cow!(handle), prefix)
    }
    // Otherwise, we'll need to copy both the handle and prefix, to unify our
    // lifetimes. Note that this isn't strictly necessary, but requiring Token to
    // contain two unrelated lifetimes is just asking for pain and suffering.
    else
    {
        Token::TagDirective(cow!(handle), prefix).into_owned()
    };
""", """    let mut token = Token::TagDirective(cow!(handle), prefix);

    if !can_borrow
    {
        token = token.into_owned();
    }
"""))
e("escape_arms", ("src/scanner/scalar/escape.rs", """        [b'n', ..] => scratch.push(b'\\x0A'),
        [b'v', ..] => scratch.push(b'\\x0B'),
""", """        [b'v', ..] => scratch.push(b'\\x0B'),
        [b'n', ..] => scratch.push(b'\\n'),
"""))
e("escape_for", ("src/scanner/scalar/escape.rs", """    while i < codepoint_len
    {
        match buffer.as_bytes().first()
        {
            None => return Err(ScanError::UnexpectedEOF),
            Some(c) if !c.is_ascii_hexdigit() => return Err(ScanError::UnknownEscape),

            Some(b) => value = (value << 4) + as_hex(*b) as u32,
        }
        advance!(buffer, 1, i);
    }
""", """    loop
    {
        if i >= codepoint_len
        {
            break;
        }

        match buffer.as_bytes().first()
        {
            None => return Err(ScanError::UnexpectedEOF),
            Some(c) if !c.is_ascii_hexdigit() => return Err(ScanError::UnknownEscape),

            Some(b) => value = (value << 4) + as_hex(*b) as u32,
        }
        advance!(buffer, 1, i);
    }
"""))
e("flow_join", ("src/scanner/scalar/flow.rs", """            n =>
            {
                set_no_borrow(&mut can_borrow, base, buffer, &mut scratch);

                scratch.truncate(scratch.len() - whitespace);

                // Safety: we can only reach this branch if n > 1
                for _ in 0..n - 1
                {
                    scratch.push(NEWLINE)
                }
            },
""", """            n =>
            {
                set_no_borrow(&mut can_borrow, base, buffer, &mut scratch);

                let keep = scratch.len() - whitespace;
                scratch.truncate(keep);

                let mut left = n - 1;
                while left > 0
                {
                    scratch.push(NEWLINE);
                    left -= 1;
                }
            },
"""))
e("flow_kind", ("src/scanner/scalar/flow.rs", """        if kind == SingleQuote && check!(~buffer => [SINGLE, SINGLE, ..])
        {
            advance!(buffer, :stats, 2);
        }
""", """        let quoted = kind == SingleQuote && check!(~buffer => [SINGLE, SINGLE, ..]);

        if quoted
        {
            advance!(buffer, :stats, 2);
        }
"""))
e("parser_seq_helper", ("src/event/parser/mod.rs", """                    Marker::BlockEntry | Marker::BlockEnd =>
                    {
                        state!(~self, -> State::BlockSequenceEntry(O_NIL));
                        event = self.empty_scalar(end, kind).map(Some)?;
                    },
""", """                    Marker::BlockEntry | Marker::BlockEnd =>
                    {
                        event = self.empty_entry(end)?;
                    },
"""), ("src/event/parser/mod.rs", """    /// Produce an empty scalar node [`Event`], always
""", """    /// An entry without content
    fn empty_entry(&mut self, mark: usize) -> Result<Option<Event<'static>>>
    {
        state!(~self, -> State::BlockSequenceEntry(O_NIL));

        self.empty_scalar(mark, NodeKind::Entry).map(Some)
    }

    /// Produce an empty scalar node [`Event`], always
"""))
e("parser_value_inline", ("src/event/parser/mod.rs", """        else
        {
            event = fetch_empty(self, start).map(Some)?;
        }

        Ok(event)
    }

    /// Produce a node or alias [`Event`]
""", """        else
        {
            state!(~self, -> State::FlowMappingKey(O_NIL));

            event = self.empty_scalar(start, kind).map(Some)?;
        }

        Ok(event)
    }

    /// Produce a node or alias [`Event`]
"""))
e("parser_key_invert", ("src/event/parser/mod.rs", """                if !matches!(token, Marker::Key | Marker::Value | Marker::BlockEnd)
                {
                    state!(~self, >> State::BlockMappingValue);
                    event = self.node(tokens, BLOCK_CONTEXT, kind)?;
                }
                // Otherwise something strange is going on, could be an implied key or an error
                else
                {
                    state!(~self, -> State::BlockMappingValue);
                    event = self.empty_scalar(start, kind).map(Some)?;
                }
""", """                if matches!(token, Marker::Key | Marker::Value | Marker::BlockEnd)
                {
                    state!(~self, -> State::BlockMappingValue);
                    event = self.empty_scalar(start, kind).map(Some)?;
                }
                else
                {
                    state!(~self, >> State::BlockMappingValue);
                    event = self.node(tokens, BLOCK_CONTEXT, kind)?;
                }
"""))
e("parser_validate_match", ("src/event/parser/mod.rs", """        match (scalar, resolvable)
        {
            // Verify tag handle exists in the directives if we're either:
            //
            // 1. Not a scalar
            // 2. Scalar and resolvable
            (false, _) | (true, true) =>
            {
                if tags.get(handle).is_none()
                {
                    return Err(Error::UndefinedTag);
                }
            },
            // Remove any non-resolvable tags from scalars, they'll just confuse callers
            (true, false) => *tag = None,
        }
""", """        if scalar && !resolvable
        {
            *tag = None;
        }
        else if tags.get(handle).is_none()
        {
            return Err(Error::UndefinedTag);
        }
"""))
e("parser_doc_content", ("src/event/parser/mod.rs", """        if empty
        {
            // Pop the state stack
            state!(~self, << None);

            Ok(None)
        }
        // Otherwise, process the document's node graph
        else
        {
            self.node(tokens, BLOCK_CONTEXT, NodeKind::Root)
        }
""", """        if !empty
        {
            return self.node(tokens, BLOCK_CONTEXT, NodeKind::Root);
        }

        state!(~self, << None);

        Ok(None)
"""))
e("parser_doc_helper", ("src/event/parser/mod.rs", """        if !implicit
        {
            while peek!(~tokens)? == Marker::DocumentEnd
            {
                pop!(tokens)?;
            }
        }
""", """        if !implicit
        {
            skip_document_ends(tokens)?;
        }
"""), ("src/event/parser/mod.rs", "fn fetch_sequence_end<'de, T>", """fn skip_document_ends<'de, T>(tokens: &mut Tokens<'de, T>) -> Result<()>
where
    T: Read,
{
    while peek!(~tokens)? == Marker::DocumentEnd
    {
        pop!(tokens)?;
    }

    Ok(())
}

fn fetch_sequence_end<'de, T>"""))
e("parser_dirs_if", ("src/event/parser/mod.rs", """                if tags.get(&handle).is_some()
                {
                    return Err(Error::DuplicateTagDirective);
                }

                end = new_end;
                tags.insert(handle, prefix);
""", """                let known = tags.get(&handle).is_some();

                if known
                {
                    return Err(Error::DuplicateTagDirective);
                }

                tags.insert(handle, prefix);
                end = new_end;
"""))
e("whitespace_helper", ("src/scanner/mod.rs", """    fn save_key(&mut self, required: bool) -> Result<()>
    {
        // A key is required if we are in the block context, and the
        // current column equals the indentation level
        let required =
            required || (self.context.is_block() && self.context.indent() == self.stats.column);
""", """    fn save_key(&mut self, required: bool) -> Result<()>
    {
        // A key is required if we are in the block context, and the
        // current column equals the indentation level
        let aligned = self.context.indent() == self.stats.column;
        let required = required || (self.context.is_block() && aligned);
"""))
