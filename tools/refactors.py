"""Edits that keep the behaviour: every check has to stay quiet on them. NAME -> [(file, old, new)]"""
R = {}
R["matches-early-return"] = [("src/productions.rs", '''        string.symbols()
            .get(index)
            .map(|symbol| self.target == *symbol)
            .unwrap_or(false) &&
            self.pre_matches(string, index) &&
            self.post_matches(string, index)
''', '''        let found = match string.symbols().get(index) {
            Some(symbol) => self.target == *symbol,
            None => false
        };

        if !found {
            return false;
        }

        self.pre_matches(string, index) && self.post_matches(string, index)
''')]
R["pre-matches-loop"] = [("src/productions.rs", '''        let symbols: Vec<_> = string.symbols()[0..index].iter().rev().collect();
        if symbols.len() < left.len() {
            return false;
        }

        return left.iter().rev().enumerate().all(|(i, t)| t == symbols[i]);
''', '''        let symbols = string.symbols();
        if index < left.len() {
            return false;
        }

        let start = index - left.len();
        for i in 0..left.len() {
            if left[i] != symbols[start + i] {
                return false;
            }
        }

        true
''')]
R["post-matches-slices"] = [("src/productions.rs", '''        let symbols = string.symbols()[index + 1 ..].to_vec();
        if symbols.len() < right.len() {
            return false;
        }

        return right.iter().enumerate().all(|(i, t)| *t == symbols[i]);
''', '''        string.symbols()[index + 1 ..].starts_with(right.symbols())
''')]
R["post-matches-iflet"] = [("src/productions.rs", '''        if self.post.is_none() {
            return true;
        }

        let right = self.post.as_ref().unwrap();
''', '''        let right = match self.post.as_ref() {
            Some(right) => right,
            None => return true
        };
''')]
R["body-helper-total"] = [("src/productions.rs", '''        let total_chance : f32 = self.body.iter()
            .map(|b| b.chance.unwrap_or(0.0))
            .sum();
''', '''        let total_chance = self.total_chance();
'''), ("src/productions.rs", '''    pub fn body(&self) -> Result<&ProductionBody> {''', '''    fn total_chance(&self) -> f32 {
        self.body.iter()
            .map(|b| b.chance.unwrap_or(0.0))
            .sum()
    }

    pub fn body(&self) -> Result<&ProductionBody> {''')]
R["body-match-len"] = [("src/productions.rs", '''        if self.body.is_empty() {
            return Err(Error::execution("Production has no bodies set"))
        }

        // Return the only instance. Chance does not matter here.
        if self.body.len() == 1 {
            return Ok(self.body.last().unwrap());
        }
''', '''        match self.body.len() {
            0 => return Err(Error::execution("Production has no bodies set")),
            1 => return Ok(&self.body[0]),
            _ => ()
        }
''')]
R["body-default-helper"] = [("src/productions.rs", '''        let default_chance = if remaining == 0 {
            0_f32
        } else {
            (1.0_f32 - total_chance).max(0.0) / (remaining as f32)
        };
''', '''        let default_chance = share(total_chance, remaining);
'''), ("src/productions.rs", '''/// Represents production rules in an L-System.
///
/// These are rules''', '''fn share(total_chance: f32, remaining: usize) -> f32 {
    if remaining == 0 {
        return 0_f32;
    }

    (1.0_f32 - total_chance).max(0.0) / (remaining as f32)
}

/// Represents production rules in an L-System.
///
/// These are rules''')]
R["merge-loop"] = [("src/productions.rs", '''        other.body.into_iter().for_each(|b| self.add_body(b));
''', '''        for body in other.body {
            self.add_body(body);
        }
''')]
R["merge-extend"] = [("src/productions.rs", '''        other.body.into_iter().for_each(|b| self.add_body(b));
''', '''        self.body.extend(other.body);
''')]
R["find-matching-iter"] = [("src/system.rs", '''    for production in productions {
        if production.matches(string, index) {
            return Some(production)
        }
    }

    None
''', '''    productions.iter().find(|production| production.matches(string, index))
''')]
R["derive-once-match"] = [("src/system.rs", '''        if let Some(production) = find_matching(productions, &string, index) {
            let body = production.body()?;

            // println!("body match: {index}: {:?}", body.string().iter().map(|t| t.code()).collect::<Vec<_>>());

            body.string()
                .symbols()
                .iter()
                .cloned()
                .for_each(|symbol| result.push_symbol(symbol));
            continue;
        } else {
            result.push_symbol(*symbol);
        }


    }

    match result.len() {
        0 => Ok(ProductionString::empty()),
        _ => Ok(result)
    }
''', '''        match find_matching(productions, &string, index) {
            Some(production) => {
                let body = production.body()?;
                for replacement in body.string().symbols() {
                    result.push_symbol(*replacement);
                }
            }
            None => result.push_symbol(*symbol)
        }
    }

    Ok(result)
''')]
R["derive-once-helper"] = [("src/system.rs", '''            body.string()
                .symbols()
                .iter()
                .cloned()
                .for_each(|symbol| result.push_symbol(symbol));
            continue;
''', '''            append(&mut result, body.string());
            continue;
'''), ("src/system.rs", '''pub fn derive(string: ProductionString, productions''', '''fn append(result: &mut ProductionString, body: &ProductionString) {
    for symbol in body.symbols() {
        result.push_symbol(*symbol);
    }
}

pub fn derive(string: ProductionString, productions''')]
R["derive-once-step-helper"] = [("src/system.rs", '''        if let Some(production) = find_matching(productions, &string, index) {
            let body = production.body()?;

            // println!("body match: {index}: {:?}", body.string().iter().map(|t| t.code()).collect::<Vec<_>>());

            body.string()
                .symbols()
                .iter()
                .cloned()
                .for_each(|symbol| result.push_symbol(symbol));
            continue;
        } else {
            result.push_symbol(*symbol);
        }


    }
''', '''        rewrite_symbol(productions, &string, index, *symbol, &mut result)?;
    }
'''), ("src/system.rs", '''pub fn derive(string: ProductionString, productions''', '''fn rewrite_symbol(productions: &[Production], string: &ProductionString, index: usize,
                  symbol: Symbol, result: &mut ProductionString) -> Result<()> {
    if let Some(production) = find_matching(productions, string, index) {
        let body = production.body()?;

        body.string()
            .symbols()
            .iter()
            .cloned()
            .for_each(|symbol| result.push_symbol(symbol));
    } else {
        result.push_symbol(symbol);
    }

    Ok(())
}

pub fn derive(string: ProductionString, productions''')]
R["derive-while"] = [("src/system.rs", '''    let mut current = string;
    for _ in 0..settings.max_iterations {
        current = derive_once(current, productions)?;
    }

    Ok(current)
''', '''    let mut current = string;
    let mut remaining = settings.max_iterations;
    while remaining > 0 {
        current = derive_once(current, productions)?;
        remaining -= 1;
    }

    Ok(current)
''')]
R["derive-fold"] = [("src/system.rs", '''    let mut current = string;
    for _ in 0..settings.max_iterations {
        current = derive_once(current, productions)?;
    }

    Ok(current)
''', '''    (0..settings.max_iterations).try_fold(string, |current, _| derive_once(current, productions))
''')]
R["derive-rename"] = [("src/system.rs", '''    let mut current = string;
    for _ in 0..settings.max_iterations {
        current = derive_once(current, productions)?;
    }

    Ok(current)
''', '''    let mut latest = string;
    for _ in 0..settings.max_iterations {
        let next = derive_once(latest, productions)?;
        latest = next;
    }

    Ok(latest)
''')]
R["system-derive-match"] = [("src/system.rs", '''        if let Ok(productions) = self.productions.read() {
            return derive(string, productions.deref(), settings);
        }

        Err(Error::general("Poisoned lock on production list"))
''', '''        match self.productions.read() {
            Ok(productions) => derive(string, productions.deref(), settings),
            Err(_) => Err(Error::general("Poisoned lock on production list"))
        }
''')]
R["add-production-iflet"] = [("src/system.rs", '''            match productions.iter_mut().find(|p| (*p.head()).eq(&head)) {
                None => productions.push(production),
                Some(found) => {
                    found.merge(production);
                }
            }
''', '''            if let Some(found) = productions.iter_mut().find(|p| *p.head() == head) {
                found.merge(production);
            } else {
                productions.push(production);
            }
''')]
R["add-production-position"] = [("src/system.rs", '''            match productions.iter_mut().find(|p| (*p.head()).eq(&head)) {
                None => productions.push(production),
                Some(found) => {
                    found.merge(production);
                }
            }

            return Ok(productions.iter().find(|p| (*p.head()).eq(&head)).unwrap().clone())
''', '''            let index = match productions.iter().position(|p| (*p.head()).eq(&head)) {
                None => {
                    productions.push(production);
                    productions.len() - 1
                }
                Some(index) => {
                    productions[index].merge(production);
                    index
                }
            };

            return Ok(productions[index].clone())
''')]
R["get-symbol-match"] = [("src/system.rs", '''        symbols.get(&code)
            .cloned()
            .map(Symbol::from_code)
''', '''        if symbols.contains(&code) {
            Some(Symbol::from_code(code))
        } else {
            None
        }
''')]
R["get-code-reorder"] = [("src/symbols.rs", '''    let mut register = get_code_register().write()?;
    let name = name.trim().to_string();

    if name.is_empty() {
        return Err(Error::general("name should not be an empty string"))
    }

    if let Some(code) = register.get(&name) {
        return Ok(*code);
    }
''', '''    let name = name.trim().to_string();
    if name.is_empty() {
        return Err(Error::general("name should not be an empty string"))
    }

    let mut register = get_code_register().write()?;
    if let Some(code) = register.get(&name) {
        return Ok(*code);
    }
''')]
R["get-code-helper"] = [("src/symbols.rs", '''    let mut names = get_name_register().write()?;
    names.insert(code, name.clone());
    drop(names);
''', '''    remember_name(code, &name)?;
'''), ("src/symbols.rs", '''/// If a code was previously returned for a symbol name''', '''fn remember_name(code: u32, name: &str) -> Result<(), Error> {
    let mut names = get_name_register().write()?;
    names.insert(code, name.to_string());
    Ok(())
}

/// If a code was previously returned for a symbol name''')]
R["head-symbols-local"] = [("src/symbols/iterator.rs", '''        let target = std::iter::once(self.target()).cloned();

        let post : Box<dyn Iterator<Item=Symbol>> = match self.post_context() {
            None => Box::new(std::iter::empty()),
            Some(val) => Box::new(val.all_symbols_iter())
        };

        pre.chain(target).chain(post)
''', '''        let post : Box<dyn Iterator<Item=Symbol>> = match self.post_context() {
            Some(val) => Box::new(val.all_symbols_iter()),
            None => Box::new(std::iter::empty())
        };

        let target = std::iter::once(self.target()).cloned();
        pre.chain(target).chain(post)
''')]
R["head-symbols-flatten"] = [("src/symbols/iterator.rs", '''        let pre : Box<dyn Iterator<Item=Symbol>> = match self.pre_context() {
            None => Box::new(std::iter::empty()),
            Some(val) => Box::new(val.all_symbols_iter())
        };

        let target = std::iter::once(self.target()).cloned();

        let post : Box<dyn Iterator<Item=Symbol>> = match self.post_context() {
            None => Box::new(std::iter::empty()),
            Some(val) => Box::new(val.all_symbols_iter())
        };

        pre.chain(target).chain(post)
''', '''        let pre = self.pre_context().into_iter().flat_map(|s| s.all_symbols_iter());
        let target = std::iter::once(*self.target());
        let post = self.post_context().into_iter().flat_map(|s| s.all_symbols_iter());

        pre.chain(target).chain(post)
''')]
R["compile-from-loop"] = [("src/parser/statement.rs", '''        let symbols: Result<Vec<Symbol>, _> = iterator
            .take_while(|t| !t.is_terminal())
            .map(Token::try_into)
            .collect();
        Ok(ProductionString::from(symbols?))
''', '''        let mut symbols = Vec::new();
        for token in iterator {
            if token.is_terminal() {
                break;
            }
            let symbol: Symbol = token.try_into()?;
            symbols.push(symbol);
        }

        Ok(ProductionString::from(symbols))
''')]
R["token-kind-if"] = [("src/parser/token.rs", '''        matches!(self.kind, TokenKind::Terminator)
''', '''        self.kind == TokenKind::Terminator
''')]
R["next-break-find"] = [("src/parser/iterator.rs", '''    for (index, char) in text[current..].char_indices() {
        let end_index = current + index;

        if is_break(char) {
            return Break::build(end_index, char).unwrap();
        }
    }

    Break::end(text.len())
''', '''    match text[current..].char_indices().find(|(_, c)| is_break(*c)) {
        Some((index, char)) => Break::build(current + index, char).unwrap(),
        None => Break::end(text.len())
    }
''')]
R["is-break-reorder"] = [("src/parser/iterator.rs", '''    if char.is_whitespace() {
        return true;
    }

    matches!(char, '<' | '>' | '-' | '+' | '(' | ')' | ';')
''', '''    match char {
        '<' | '>' | '-' | '+' | '(' | ')' | ';' => true,
        _ => is_consume(char)
    }
''')]
R["next-helper-run"] = [("src/parser/iterator.rs", '''                    let mut chars : Vec<char> = vec![c];
                    let mut lookahead = next_break(text, index + 1);
                    while lookahead.is_token() && lookahead.index() == index + chars.len() {
                        chars.push(c);
                        lookahead = next_break(text, index + chars.len())
                    }

                    let index_start = self.current;
                    let index_end = self.current + index + chars.len();
                    self.current += index + chars.len();

                    return Some(Token::new(&text[index..index + chars.len()], index_start, index_end));
''', '''                    let length = run_length(text, index, c);
                    let index_start = self.current;
                    let index_end = self.current + index + length;
                    self.current += index + length;

                    return Some(Token::new(&text[index..index + length], index_start, index_end));
'''), ("src/parser/iterator.rs", '''fn next_break(text: &str''', '''fn run_length(text: &str, index: usize, c: char) -> usize {
    let mut chars : Vec<char> = vec![c];
    let mut lookahead = next_break(text, index + 1);
    while lookahead.is_token() && lookahead.index() == index + chars.len() {
        chars.push(c);
        lookahead = next_break(text, index + chars.len())
    }
    chars.len()
}

fn next_break(text: &str''')]
R["parse-body-tokens"] = [("src/parser.rs", '''    match chance {
        None => Ok(ProductionBody::new(ProductionString::from(body_tokens))),
        Some(chance) => ProductionBody::try_with_chance(chance, ProductionString::from(body_tokens))
    }
''', '''    let string = ProductionString::from(body_tokens);
    if let Some(chance) = chance {
        return ProductionBody::try_with_chance(chance, string);
    }

    Ok(ProductionBody::new(string))
''')]
R["parse-head-context-try"] = [("src/parser.rs", '''        let iter = strings.iter().map(|s| Symbol::build(*s));
        let error = iter.clone().find(|t| t.is_err());

        if let Some(Err(e)) = error {
            return Err(e);
        }

        let tokens: Vec<_> = iter.map(|t| t.unwrap()).collect();

        Ok(ProductionString::from(tokens))
''', '''        let mut tokens = Vec::new();
        for s in strings {
            tokens.push(Symbol::build(*s)?);
        }

        Ok(ProductionString::from(tokens))
''')]
R["parse-head-transpose"] = [("src/parser.rs", '''    let left = parse_head_context(left);
    if let Some(Err(e)) = left {
        return Err(e);
    }

    let left = left.map(|d| d.unwrap());
''', '''    let left = parse_head_context(left).transpose()?;
''')]
R["parse-production-split-once"] = [("src/parser.rs", '''    let index = production
        .find("->")
        .ok_or_else(|| Error::new(ErrorKind::Parse,
                                  String::from("supplied string is not a production: ") + production))?;

    let head_str = &production[0..index];
    let body_str = &production[index + 2..];
''', '''    let (head_str, body_str) = production
        .split_once("->")
        .ok_or_else(|| Error::new(ErrorKind::Parse,
                                  String::from("supplied string is not a production: ") + production))?;
''')]
R["turtle-match-helper"] = [("src/interpretation/abop.rs", '''                pos = pos + dir;
                if path.len() > 1 {
                    paths.push(path)
                }
                path = Path::new();
                path.push(pos);
            } else if token == push''', '''                pos = pos + dir;
                if path.len() > 1 {
                    paths.push(path)
                }
                path = start_path(pos);
            } else if token == push'''), ("src/interpretation/abop.rs", '''fn find_symbol<S: SymbolStore>''', '''fn start_path(pos: Point) -> Path {
    let mut path = Path::new();
    path.push(pos);
    path
}

fn find_symbol<S: SymbolStore>''')]
R["turtle-reorder-lookups"] = [("src/interpretation/abop.rs", '''        let right = find_symbol(tokens, "+")?;
        let left = find_symbol(tokens, "-")?;
        let push = find_symbol(tokens, "[")?;
        let pop = find_symbol(tokens, "]")?;
''', '''        let push = find_symbol(tokens, "[")?;
        let pop = find_symbol(tokens, "]")?;
        let left = find_symbol(tokens, "-")?;
        let right = find_symbol(tokens, "+")?;
''')]
R["turtle-reorder-branches"] = [("src/interpretation/abop.rs", '''            } else if token == left {               // Rotate a bit
                dir = dir.rotate(-angle);
            } else if token == right {              // Rotate in the other direction.
                dir = dir.rotate(angle);
            }
''', '''            } else if token == right {              // Rotate a bit
                dir = dir.rotate(angle);
            } else if token == left {               // Rotate in the other direction.
                dir = dir.rotate(-angle);
            }
''')]
R["turtle-stack-struct"] = [("src/interpretation/abop.rs", '''                (pos, dir) = pos_stack.pop()
                    .ok_or_else(|| Error::execution("there is no open branch to finish"))?;
''', '''                match pos_stack.pop() {
                    Some((p, d)) => {
                        pos = p;
                        dir = d;
                    }
                    None => return Err(Error::execution("there is no open branch to finish"))
                }
''')]
R["find-symbol-match"] = [("src/interpretation/abop.rs", '''    symbols.get_symbol(name)
        .ok_or_else(|| Error::definition(format!("symbol {name} has not been defined")))
''', '''    match symbols.get_symbol(name) {
        Some(symbol) => Ok(symbol),
        None => Err(Error::definition(format!("symbol {name} has not been defined")))
    }
''')]
R["bounds-min-max"] = [("src/geometry.rs", '''            if point.x < bounds.min_x {
                bounds.min_x = point.x;
            }
            if point.x > bounds.max_x {
                bounds.max_x = point.x;
            }
''', '''            bounds.min_x = bounds.min_x.min(point.x);
            bounds.max_x = bounds.max_x.max(point.x);
''')]
R["bounds-rename-center"] = [("src/geometry.rs", '''        let mut center = Point::zero();

        for point in &self.points {
            center = center + *point;
''', '''        let mut total = Point::zero();

        for point in &self.points {
            total = total + *point;
'''), ("src/geometry.rs", "RENAME", "")]
R["rotate-local"] = [("src/geometry.rs", '''        let cos = degrees.to_radians().cos();
        let sin = degrees.to_radians().sin();

        Vector::new(
            cos * self.x() - sin * self.y(),
            sin * self.x() + cos * self.y()
        )
''', '''        let (sin, cos) = degrees.to_radians().sin_cos();
        let x = cos * self.x - sin * self.y;
        let y = sin * self.x + cos * self.y;

        Vector::new(x, y)
''')]
R["path-add-loop"] = [("src/geometry.rs", '''        self.into_iter().map(|p| p + rhs).collect()
''', '''        let mut moved = Path::new();
        for p in self {
            moved.push(p + rhs);
        }
        moved
''')]
R["center-shared"] = [("src/geometry.rs", '''        Point::new((self.max_x + self.min_x) / 2.0, (self.max_y + self.min_y) / 2.0)
''', '''        let x = (self.max_x + self.min_x) / 2.0;
        let y = (self.max_y + self.min_y) / 2.0;
        Point::new(x, y)
''')]
R["svg-group-helper"] = [("src/interpretation/svg.rs", '''        for element in &self.elements {
            string.push_str(element.to_svg().as_str());
        }

        string.push_str("</g>");
''', '''        string.push_str(elements_to_svg(&self.elements).as_str());
        string.push_str("</g>");
'''), ("src/interpretation/svg.rs", '''impl SvgElement for SvgGroup {''', '''fn elements_to_svg(elements: &[Rc<dyn SvgElement>]) -> String {
    let mut string = String::new();
    for element in elements {
        string.push_str(element.to_svg().as_str());
    }
    string
}

impl SvgElement for SvgGroup {''')]
R["svg-path-enumerate"] = [("src/interpretation/svg.rs", '''            let first = self.get(0).unwrap();
            string.push_str(format!("M {} {}", first.x(), first.y()).as_str());
            for point in self.iter().skip(1) {
                string.push_str(format!(" L {} {}", point.x(), point.y()).as_str());
            }
''', '''            for (index, point) in self.iter().enumerate() {
                let command = if index == 0 { "M" } else { " L" };
                string.push_str(format!("{} {} {}", command, point.x(), point.y()).as_str());
            }
''')]
R["svg-path-attr-helper"] = [("src/interpretation/svg.rs", '''        if let Some(fill) = self.fill() {
            string.push_str(format!(" fill=\\"{}\\"", fill).as_str());
        }
        if let Some(stroke) = self.stroke() {
            string.push_str(format!(" stroke=\\"{}\\"", stroke).as_str());
        }
''', '''        push_attr(&mut string, "fill", self.fill());
        push_attr(&mut string, "stroke", self.stroke());
'''), ("src/interpretation/svg.rs", '''impl SvgElement for SvgPath {''', '''fn push_attr(string: &mut String, name: &str, value: Option<&String>) {
    if let Some(value) = value {
        string.push_str(format!(" {}=\\"{}\\"", name, value).as_str());
    }
}

impl SvgElement for SvgPath {''')]
R["svg-interpret-scale-helper"] = [("src/interpretation/svg.rs", '''                let scale_y = self.height() as f64 / bounds.height();
                let scale_x = self.width() as f64 / bounds.width();
                let scale = scale_x.min(scale_y);
                // A drawing that is a single point cannot be scaled to fit.
                let scale = if scale.is_finite() { scale } else { 1.0 };

                Point::new(scale, -scale)
''', '''                let scale = self.scale_to_fit(bounds);
                Point::new(scale, -scale)
'''), ("src/interpretation/svg.rs", '''    #[inline]
    pub fn width(&self) -> usize {
        self.width
    }
''', '''    fn scale_to_fit(&self, bounds: &crate::geometry::BoundingBox) -> f64 {
        let scale_y = self.height() as f64 / bounds.height();
        let scale_x = self.width() as f64 / bounds.width();
        let scale = scale_x.min(scale_y);
        // A drawing that is a single point cannot be scaled to fit.
        if scale.is_finite() { scale } else { 1.0 }
    }

    #[inline]
    pub fn width(&self) -> usize {
        self.width
    }
''')]
R["svg-interpret-loop"] = [("src/interpretation/svg.rs", '''        let elements: Vec<_> = paths.into_iter()
            .map(SvgPath::from)
            .map(Rc::new)
            .map(|rc| rc as Rc<dyn SvgElement>)
            .collect();
''', '''        let mut elements: Vec<Rc<dyn SvgElement>> = Vec::new();
        for path in paths {
            elements.push(Rc::new(SvgPath::from(path)));
        }
''')]
R["svg-tostring-write"] = [("src/interpretation/svg.rs", '''        for item in &self.elements {
            string.push_str(item.to_svg().as_str());
        }

        string.push_str("</svg>");
        string
''', '''        let items: Vec<String> = self.elements.iter().map(|item| item.to_svg()).collect();
        string.push_str(&items.concat());

        string.push_str("</svg>");
        string
''')]
R["plant-for-lines"] = [("src/interpretation/abop/parser.rs", '''    let mut lines = string.lines().peekable();

''', ''''''), ("src/interpretation/abop/parser.rs", '''    #[allow(clippy::while_let_on_iterator)]
    while let Some(line) = lines.next() {
''', '''    for line in string.lines() {
''')]
R["plant-initial-match"] = [("src/interpretation/abop/parser.rs", '''    if initial.is_none() {
        return Err(Error::new(ErrorKind::Parse, "No initial axiom has been supplied"));
    }

    let initial = parse_prod_string(initial.unwrap())?;
''', '''    let initial = match initial {
        Some(initial) => parse_prod_string(initial)?,
        None => return Err(Error::new(ErrorKind::Parse, "No initial axiom has been supplied"))
    };
''')]
R["plant-equality-split-once"] = [("src/interpretation/abop/parser.rs", '''    let parts: Vec<&str> = line.splitn(2, '=').collect();
    if parts.len() != 2 {
        return Err(Error::general("Invalid equality line"));
    }
    let name = parts[0].trim();
    let value = parts[1].trim();
    Ok(EqualityLine { name, value })
''', '''    match line.split_once('=') {
        Some((name, value)) => Ok(EqualityLine { name: name.trim(), value: value.trim() }),
        None => Err(Error::general("Invalid equality line"))
    }
''')]
R["plant-setting-helper"] = [("src/interpretation/abop/parser.rs", '''            let equality = parse_equality(line)?;
            match equality.name {
                "n" | "N" => {
                    n = equality.value.parse()?;
                }
                "d" | "D" | "delta" | "∂" => {
                    delta = equality.value.parse()?;
                }
                _ => return Err(Error::new(ErrorKind::Parse, format!("Unrecognised line {}", line)))
            }

            continue;
''', '''            apply_setting(line, &mut n, &mut delta)?;
            continue;
'''), ("src/interpretation/abop/parser.rs", '''struct EqualityLine<'a> {''', '''fn apply_setting(line: &str, n: &mut usize, delta: &mut f32) -> crate::Result<()> {
    let equality = parse_equality(line)?;
    match equality.name {
        "n" | "N" => {
            *n = equality.value.parse()?;
        }
        "d" | "D" | "delta" | "∂" => {
            *delta = equality.value.parse()?;
        }
        _ => return Err(Error::new(ErrorKind::Parse, format!("Unrecognised line {}", line)))
    }

    Ok(())
}

struct EqualityLine<'a> {''')]
R["plant-find-comment"] = [("src/interpretation/abop/parser.rs", '''    line.split('#').next().unwrap().trim()
''', '''    match line.find('#') {
        Some(index) => line[..index].trim(),
        None => line.trim()
    }
''')]
R["family-register-contains"] = [("src/system/family.rs", '''    if map.get(&name).is_some() {
        return Err(''', '''    if map.contains_key(&name) {
        return Err(''')]
R["family-init-entry"] = [("src/system/family.rs", '''    // Build, but now synchronised via the above write guard.
    let family = default();

    let family = Arc::new(family);
    map.insert(name.as_ref().to_string(), family.clone());

    family
''', '''    // Build, but now synchronised via the above write guard.
    map.entry(name.as_ref().to_string())
        .or_insert_with(|| Arc::new(default()))
        .clone()
''')]
R["family-get-match"] = [("src/system/family.rs", '''    let map = reference().read().ok()?;
    map.get(name.as_ref()).cloned()
''', '''    match reference().read() {
        Ok(map) => map.get(name.as_ref()).map(Arc::clone),
        Err(_) => None
    }
''')]
R["family-insert-helper"] = [("src/system/family.rs", '''    let family = Arc::new(family);
    map.insert(name.as_ref().to_string(), family.clone());

    family
''', '''    insert_family(&mut map, name.as_ref(), family)
'''), ("src/system/family.rs", '''pub trait TryIntoFamily {''', '''fn insert_family(map: &mut HashMap<String, Arc<SystemFamily>>, name: &str, family: SystemFamily) -> Arc<SystemFamily> {
    let family = Arc::new(family);
    map.insert(name.to_string(), family.clone());
    family
}

pub trait TryIntoFamily {''')]
R["symbol-eq-derive"] = [("src/symbols.rs", '''#[derive(Debug, Clone, Copy)]
pub struct Symbol {''', '''#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Symbol {'''), ("src/symbols.rs", '''impl PartialEq for Symbol {
    fn eq(&self, other: &Self) -> bool {
        self.code == other.code
    }
}

impl Eq for Symbol {}

impl Hash for Symbol {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.code.hash(state);
    }
}
''', "")]
R["noop-statements"] = [("src/system.rs", '''    let mut current = string;
    for _ in''', '''    let _ = ();
    let mut current = string;
    for _ in'''), ("src/productions.rs", '''        if self.post.is_none() {
            return true;''', '''        let _noop = 0;
        if self.post.is_none() {
            return true;'''), ("src/parser.rs", '''    let head = head.trim();
''', '''    let head = head.trim();
    let _ = head;
''')]
# --- the tool, adding rules, files, and a second round over every file ---
R["tool-fail-helper"] = [("src/bin/lsystem/derive.rs", '''    let result = system.derive(axiom, interpretation.run_settings());
    if let Err(e) = result {
        eprintln!("\\n{}", error_style().paint("Error"));
        eprintln!("{}", e);
        return ExitCode::FAILURE;
    }
    let result = interpretation.interpret(&system, &result.unwrap());

    if let Err(e) = result {
        eprintln!("\\n{}", error_style().paint("Error"));
        eprintln!("{}", e);
        return ExitCode::FAILURE;
    }
    let result = result.unwrap();
''', '''    let result = system.derive(axiom, interpretation.run_settings());
    if let Err(e) = result {
        return report_failure(&e);
    }
    let result = interpretation.interpret(&system, &result.unwrap());

    if let Err(e) = result {
        return report_failure(&e);
    }
    let result = result.unwrap();
'''), ("src/bin/lsystem/derive.rs", '''pub fn handle_derive(''', '''fn report_failure(e: &Error) -> ExitCode {
    eprintln!("\\n{}", error_style().paint("Error"));
    eprintln!("{}", e);
    ExitCode::FAILURE
}

pub fn handle_derive('''), ("src/bin/lsystem/derive.rs", '''use rusty_systems::prelude::*;
''', '''use rusty_systems::error::Error;
use rusty_systems::prelude::*;
''')]
R["tool-match-results"] = [("src/bin/lsystem/derive.rs", '''    let result = system.derive(axiom, interpretation.run_settings());
    if let Err(e) = result {
        eprintln!("\\n{}", error_style().paint("Error"));
        eprintln!("{}", e);
        return ExitCode::FAILURE;
    }
    let result = interpretation.interpret(&system, &result.unwrap());
''', '''    let settings = interpretation.run_settings();
    let string = match system.derive(axiom, settings) {
        Ok(string) => string,
        Err(e) => {
            eprintln!("\\n{}", error_style().paint("Error"));
            eprintln!("{}", e);
            return ExitCode::FAILURE;
        }
    };
    let result = interpretation.interpret(&system, &string);
''')]
R["tool-output-helper"] = [("src/bin/lsystem/derive.rs", '''    let mut output = derive.output.to_path_buf();
    let extension = output.extension().unwrap_or_default().to_ascii_lowercase();
    if extension != "svg" {
        output = output.with_extension("svg");
    }
''', '''    let output = svg_file(derive);
'''), ("src/bin/lsystem/derive.rs", '''pub fn handle_derive(''', '''fn svg_file(derive: &InterpretationArgs) -> PathBuf {
    let output = derive.output.to_path_buf();
    let extension = output.extension().unwrap_or_default().to_ascii_lowercase();
    if extension == "svg" {
        return output;
    }

    output.with_extension("svg")
}

pub fn handle_derive('''), ("src/bin/lsystem/derive.rs", '''use std::process::ExitCode;
''', '''use std::path::PathBuf;
use std::process::ExitCode;
''')]
R["tool-save-match"] = [("src/bin/lsystem/derive.rs", '''    if let Some(e) = result.save_file(output.as_path()).err() {
        eprintln!("\\n{}", error_style().paint("Error"));
        eprintln!("{}", e);
        return ExitCode::FAILURE;
    }

    if args.verbose {
        println!("Saved SVG file to {} {}", output.to_string_lossy(), green().paint("\\t✔"));
    }

    ExitCode::SUCCESS
''', '''    match result.save_file(output.as_path()) {
        Ok(_) => {
            if args.verbose {
                println!("Saved SVG file to {} {}", output.to_string_lossy(), green().paint("\\t✔"));
            }

            ExitCode::SUCCESS
        }
        Err(e) => {
            eprintln!("\\n{}", error_style().paint("Error"));
            eprintln!("{}", e);
            ExitCode::FAILURE
        }
    }
''')]
R["tool-parse-match"] = [("src/bin/lsystem/derive.rs", '''    let (interpretation, system, axiom) = {
        let result = parser::parse_file(derive.file.as_ref());
        if let Err(e) = result {
            if args.verbose { println!("❌") }
            eprint!("\\n{}: ", error_style().paint("Error"));
            eprintln!("{}", e);
            return ExitCode::FAILURE;
        }

        result.unwrap()
    };
''', '''    let (interpretation, system, axiom) = match parser::parse_file(derive.file.as_ref()) {
        Ok(parsed) => parsed,
        Err(e) => {
            if args.verbose { println!("❌") }
            eprint!("\\n{}: ", error_style().paint("Error"));
            eprintln!("{}", e);
            return ExitCode::FAILURE;
        }
    };
''')]
R["save-file-fs-write"] = [("src/interpretation/svg.rs", '''        let mut file = File::create(name)?;
        file.write_all(self.to_svg().as_bytes())
''', '''        std::fs::write(name, self.to_svg())
'''), ("src/interpretation/svg.rs", '''use std::fs::File;
use std::io::prelude::*;
''', '')]
R["save-file-text-first"] = [("src/interpretation/svg.rs", '''        let mut file = File::create(name)?;
        file.write_all(self.to_svg().as_bytes())
''', '''        let text = self.to_svg();
        let mut file = File::create(name)?;
        file.write_all(text.as_bytes())?;
        Ok(())
''')]
R["parse-add-collect"] = [("src/parser.rs", '''    let prod = parse_production(production)?;

    for symbol in prod.all_symbols_iter() {
        symbols.add_symbol(symbol)?;
    }
    
    productions.add_production(prod)
''', '''    let rule = parse_production(production)?;
    let used: Vec<Symbol> = rule.all_symbols();

    for symbol in used {
        symbols.add_symbol(symbol)?;
    }

    productions.add_production(rule)
''')]
R["svg-path-iter-next"] = [("src/interpretation/svg.rs", '''        if !self.is_empty() {
            string.push_str(" d=\\"");
            let first = self.get(0).unwrap();
            string.push_str(format!("M {} {}", first.x(), first.y()).as_str());
            for point in self.iter().skip(1) {
                string.push_str(format!(" L {} {}", point.x(), point.y()).as_str());
            }
            string.push('"');
        }
''', '''        let mut points = self.iter();
        if let Some(first) = points.next() {
            string.push_str(" d=\\"");
            string.push_str(&format!("M {} {}", first.x(), first.y()));
            for point in points {
                string.push_str(&format!(" L {} {}", point.x(), point.y()));
            }
            string.push('"');
        }
''')]
R["svg-circle-parts"] = [("src/interpretation/svg.rs", '''        format!("<circle cx=\\"{}\\" cy=\\"{}\\" r=\\"{}\\" {}/>",
                self.centre.x(), self.centre.y(), self.radius, self.decorations.to_attr_string())
''', '''        let attributes = self.decorations.to_attr_string();
        let mut string = String::from("<circle ");
        string.push_str(&format!("cx=\\"{}\\" cy=\\"{}\\" ", self.centre.x(), self.centre.y()));
        string.push_str(&format!("r=\\"{}\\" ", self.radius));
        string.push_str(&attributes);
        string.push_str("/>");
        string
''')]
R["svg-decorations-match"] = [("src/interpretation/svg.rs", '''        [
            self.fill.as_ref().map(|fill| format!("fill=\\"{}\\"", fill)).unwrap_or_default(),
            self.stroke.as_ref().map(|stroke| format!("stroke=\\"{}\\"", stroke)).unwrap_or_default(),
            self.stroke_width.as_ref().map(|width| format!("stroke-width=\\"{}\\"", width)).unwrap_or_default()
        ].join(" ")
''', '''        let mut string = String::new();
        if let Some(fill) = &self.fill {
            string.push_str(&format!("fill=\\"{}\\"", fill));
        }
        string.push(' ');
        if let Some(stroke) = &self.stroke {
            string.push_str(&format!("stroke=\\"{}\\"", stroke));
        }
        string.push(' ');
        if let Some(width) = &self.stroke_width {
            string.push_str(&format!("stroke-width=\\"{}\\"", width));
        }
        string
''')]
R["svg-circle-build-else"] = [("src/interpretation/svg.rs", '''        if radius < 0.0 {
            return Err(Error::general("radius should be non-negative"))
        }

        Ok(SvgCircle { centre: point.into(), radius, ..Default::default()})
''', '''        let centre = point.into();

        if radius < 0.0 {
            Err(Error::general("radius should be non-negative"))
        } else {
            Ok(SvgCircle { centre, radius, ..SvgCircle::default() })
        }
''')]
R["svg-canvas-helper"] = [("src/interpretation/svg.rs", '''        let canvas_centre = Point::new(self.width as f64 / 2.0, self.height as f64 / 2.0);
''', '''        let canvas_centre = self.canvas_centre();
'''), ("src/interpretation/svg.rs", '''    #[inline]
    pub fn width(&self) -> usize {''', '''    fn canvas_centre(&self) -> Point {
        Point::new(self.width as f64 / 2.0, self.height as f64 / 2.0)
    }

    #[inline]
    pub fn width(&self) -> usize {''')]
R["system-derive-let-else"] = [("src/system.rs", '''        if let Ok(productions) = self.productions.read() {
            return derive(string, productions.deref(), settings);
        }

        Err(Error::general("Poisoned lock on production list"))
''', '''        let Ok(productions) = self.productions.read() else {
            return Err(Error::general("Poisoned lock on production list"));
        };

        derive(string, productions.deref(), settings)
''')]
R["system-derive-map-err"] = [("src/system.rs", '''        if let Ok(productions) = self.productions.read() {
            return derive_once(string, productions.deref());
        }

        Err(Error::general("Poisoned lock on production list"))
''', '''        let productions = self.productions.read()
            .map_err(|_| Error::general("Poisoned lock on production list"))?;

        derive_once(string, &productions)
''')]
R["add-production-let-else"] = [("src/system.rs", '''        let lock = self.productions.write();
        if let Ok(mut productions) = lock {
            let head = production.head().clone();

            //region Register symbols with the system
            for symbol in production.all_symbols_iter() {
                self.add_symbol(symbol)?;
            }
            //endregion 

            match productions.iter_mut().find(|p| (*p.head()).eq(&head)) {
                None => productions.push(production),
                Some(found) => {
                    found.merge(production);
                }
            }

            return Ok(productions.iter().find(|p| (*p.head()).eq(&head)).unwrap().clone())
        }

        Err(Error::new(ErrorKind::Locking, "production lock is poisoned"))
''', '''        let Ok(mut productions) = self.productions.write() else {
            return Err(Error::new(ErrorKind::Locking, "production lock is poisoned"));
        };

        //region Register symbols with the system
        for symbol in production.all_symbols_iter() {
            self.add_symbol(symbol)?;
        }
        //endregion

        let head = production.head().clone();
        match productions.iter_mut().find(|p| *p.head() == head) {
            Some(found) => found.merge(production),
            None => productions.push(production)
        }

        Ok(productions.iter().find(|p| *p.head() == head).unwrap().clone())
''')]
R["add-symbol-scope"] = [("src/system.rs", '''        let mut map = self.symbols.write()?;
        map.insert(symbol.code());
        
        Ok(symbol)
''', '''        {
            let mut map = self.symbols.write()?;
            map.insert(symbol.code());
        }

        Ok(symbol)
''')]
R["get-symbol-contains"] = [("src/system.rs", '''        symbols.get(&code)
            .cloned()
            .map(Symbol::from_code)
''', '''        if symbols.contains(&code) {
            Some(Symbol::from_code(code))
        } else {
            None
        }
''')]
R["lens-local"] = [("src/system.rs", '''        self.productions.read().unwrap().len()
''', '''        let productions = self.productions.read().unwrap();
        productions.len()
''')]
R["of-family-iter"] = [("src/system.rs", '''        let system = System::default();

        for symbol in family.symbols() {
            system.add_symbol(symbol.name.as_str())?;
        }
''', '''        let system = System::new();

        for description in family.symbols() {
            let name: &str = &description.name;
            system.add_symbol(name)?;
        }
''')]
R["derive-once-extend"] = [("src/system.rs", '''            body.string()
                .symbols()
                .iter()
                .cloned()
                .for_each(|symbol| result.push_symbol(symbol));
            continue;
''', '''            for symbol in body.string() {
                result.push_symbol(symbol);
            }
            continue;
''')]
R["derive-once-vec"] = [("src/system.rs", '''    let mut result = ProductionString::default();

    for (index, symbol) in string.symbols().iter().enumerate() {
        if let Some(production) = find_matching(productions, &string, index) {
            let body = production.body()?;

            // println!("body match: {index}: {:?}", body.string().iter().map(|t| t.code()).collect::<Vec<_>>());

            body.string()
                .symbols()
                .iter()
                .cloned()
                .for_each(|symbol| result.push_symbol(symbol));
            continue;
        } else {
            result.push_symbol(*symbol);
        }


    }

    match result.len() {
        0 => Ok(ProductionString::empty()),
        _ => Ok(result)
    }
''', '''    let mut result = Vec::with_capacity(string.len());

    for (index, symbol) in string.symbols().iter().enumerate() {
        match find_matching(productions, &string, index) {
            Some(production) => result.extend(production.body()?.string()),
            None => result.push(*symbol)
        }
    }

    Ok(ProductionString::from(result))
''')]
R["get-code-early-trim"] = [("src/symbols.rs", '''    let mut register = get_code_register().write()?;
    let name = name.trim().to_string();

    if name.is_empty() {
        return Err(Error::general("name should not be an empty string"))
    }

    if let Some(code) = register.get(&name) {
        return Ok(*code);
    }
''', '''    let name = name.trim();
    if name.is_empty() {
        return Err(Error::general("name should not be an empty string"))
    }

    let name = name.to_string();
    let mut register = get_code_register().write()?;
    if let Some(&code) = register.get(&name) {
        return Ok(code);
    }
''')]
R["symbol-display-match"] = [("src/symbols.rs", '''        if let Some(name) = get_name(self.code) {
            return f.write_str(name.as_str());
        }

        write!(f, "code:{}", self.code)
''', '''        match self.name() {
            Some(name) => f.write_str(&name),
            None => write!(f, "code:{}", self.code)
        }
''')]
R["try-from-code-match"] = [("src/symbols.rs", '''        if get_name(value).is_none() {
            return Err(Error::general(format!("Unable to find symbol for code {value}")));
        }

        Ok(Symbol::from_code(value))
''', '''        match get_name(value) {
            Some(_) => Ok(Symbol::from_code(value)),
            None => Err(Error::general(format!("Unable to find symbol for code {value}")))
        }
''')]
R["string-display-enumerate"] = [("src/strings.rs", '''        let mut first = true;
        for symbol in self.symbols() {
            if !first {
                f.write_char(' ')?;
            } else {
                first = false;
            }
            f.write_str(symbol.to_string().as_str())?;
        }
        
        Ok(())
        
''', '''        for (index, symbol) in self.symbols().iter().enumerate() {
            if index > 0 {
                f.write_char(' ')?;
            }
            f.write_str(symbol.to_string().as_str())?;
        }

        Ok(())
''')]
R["string-display-write"] = [("src/strings.rs", '''            f.write_str(symbol.to_string().as_str())?;
''', '''            write!(f, "{}", symbol)?;
''')]
R["turtle-match-guards"] = [("src/interpretation/abop.rs", '''            if token == forward {                   // interpret forward tokens.
                pos = pos + dir;
                path.push(pos);
            } else if token == space {
                pos = pos + dir;
                if path.len() > 1 {
                    paths.push(path)
                }
                path = Path::new();
                path.push(pos);
            } else if token == push {               // interpret push tokens. This starts "a branch" of the plant.
                pos_stack.push((pos, dir));
            } else if token == pop {''', '''            if token == forward || token == space {
                pos = pos + dir;
                if token == space {
                    if path.len() > 1 {
                        paths.push(path)
                    }
                    path = Path::new();
                }
                path.push(pos);
            } else if token == push {               // interpret push tokens. This starts "a branch" of the plant.
                pos_stack.push((pos, dir));
            } else if token == pop {''')]
R["turtle-pop-match"] = [("src/interpretation/abop.rs", '''                (pos, dir) = pos_stack.pop()
                    .ok_or_else(|| Error::execution("there is no open branch to finish"))?;
''', '''                match pos_stack.pop() {
                    Some((saved_pos, saved_dir)) => {
                        pos = saved_pos;
                        dir = saved_dir;
                    }
                    None => return Err(Error::execution("there is no open branch to finish"))
                }
''')]
R["plant-match-line"] = [("src/interpretation/abop/parser.rs", '''            match equality.name {
                "n" | "N" => {
                    n = equality.value.parse()?;
                }
                "d" | "D" | "delta" | "∂" => {
                    delta = equality.value.parse()?;
                }
                _ => return Err(Error::new(ErrorKind::Parse, format!("Unrecognised line {}", line)))
            }
''', '''            let name = equality.name;
            if name == "n" || name == "N" {
                n = equality.value.parse()?;
            } else if name == "d" || name == "D" || name == "delta" || name == "∂" {
                delta = equality.value.parse()?;
            } else {
                return Err(Error::new(ErrorKind::Parse, format!("Unrecognised line {}", line)))
            }
''')]
R["plant-bools"] = [("src/interpretation/abop/parser.rs", '''    if prod_count == 0 {
        return Err(Error::new(ErrorKind::Parse, "No productions have been supplied"));
    }

    if initial.is_none() {
        return Err(Error::new(ErrorKind::Parse, "No initial axiom has been supplied"));
    }

    let initial = parse_prod_string(initial.unwrap())?;
''', '''    let initial = match initial {
        Some(text) if prod_count > 0 => parse_prod_string(text)?,
        Some(_) => return Err(Error::new(ErrorKind::Parse, "No productions have been supplied")),
        None => return Err(Error::new(ErrorKind::Parse, "No initial axiom has been supplied"))
    };
''')]
R["plant-counter-after"] = [("src/interpretation/abop/parser.rs", '''        prod_count += 1;
        system.add_production(line)?;
''', '''        system.add_production(line)?;
        prod_count += 1;
''')]
R["family-get-or-init-match"] = [("src/system/family.rs", '''    // See if we have a value using just a read lock.
    if let Some(value) = get_family(name.as_ref()) {
        return value;
    }

    let mut map = reference().write().unwrap();
    // Now we have a write lock. Need to double-check that the family
    // hasn't been registered
    if let Some(value) = map.get(name.as_ref()) {
        return value.clone();
    }

    // Build, but now synchronised via the above write guard.
    let family = default();

    let family = Arc::new(family);
    map.insert(name.as_ref().to_string(), family.clone());

    family
''', '''    let name = name.as_ref();

    // See if we have a value using just a read lock.
    match get_family(name) {
        Some(value) => return value,
        None => {}
    }

    let mut map = reference().write().unwrap();
    // Now we have a write lock. Need to double-check that the family
    // hasn't been registered
    match map.get(name) {
        Some(value) => value.clone(),
        None => {
            // Build, but now synchronised via the above write guard.
            let family = Arc::new(default());
            map.insert(String::from(name), family.clone());

            family
        }
    }
''')]
R["family-builder-order"] = [("src/system/family.rs", '''        let mut map = reference().write()?;
        if map.contains_key(name) {
            return Err(Error::new(ErrorKind::Duplicate,
                                  format!("family name [{}] is already taken", name)));
        }

        let family = self.build(name)?;
        map.insert(name.to_string(), Arc::new(family));
        Ok(map.get(name).unwrap().clone())
''', '''        let family = Arc::new(self.build(name)?);

        let mut map = reference().write()?;
        if map.contains_key(name) {
            return Err(Error::new(ErrorKind::Duplicate,
                                  format!("family name [{}] is already taken", name)));
        }

        map.insert(name.to_string(), family.clone());
        Ok(family)
''')]
R["family-symbols-direct"] = [("src/system/family.rs", '''        self.terminals().chain(self.productions())
''', '''        self.terminals.values().chain(self.productions.values())
''')]
R["rotate-radians-once"] = [("src/geometry.rs", '''        let cos = degrees.to_radians().cos();
        let sin = degrees.to_radians().sin();
''', '''        let radians = degrees.to_radians();
        let (sin, cos) = (radians.sin(), radians.cos());
''')]
R["rotate-sin-cos"] = [("src/geometry.rs", '''        let cos = degrees.to_radians().cos();
        let sin = degrees.to_radians().sin();
''', '''        let (sin, cos) = degrees.to_radians().sin_cos();
''')]
R["norm-products"] = [("src/geometry.rs", '''        (self.x.powi(2) + self.y.powi(2)).sqrt()
''', '''        (self.x * self.x + self.y * self.y).sqrt()
''')]
R["bounds-helper"] = [("src/geometry.rs", '''            if point.x < bounds.min_x {
                bounds.min_x = point.x;
            }
            if point.x > bounds.max_x {
                bounds.max_x = point.x;
            }
            if point.y < bounds.min_y {
                bounds.min_y = point.y;
            }
            if point.y > bounds.max_y {
                bounds.max_y = point.y;
            }
''', '''            bounds.extend(point);
'''), ("src/geometry.rs", '''    fn initial_infinite() -> Self {''', '''    fn extend(&mut self, point: &Point) {
        if point.x < self.min_x {
            self.min_x = point.x;
        }
        if point.x > self.max_x {
            self.max_x = point.x;
        }
        if point.y < self.min_y {
            self.min_y = point.y;
        }
        if point.y > self.max_y {
            self.max_y = point.y;
        }
    }

    fn initial_infinite() -> Self {''')]
R["path-from-iter-push"] = [("src/geometry.rs", '''        Path { points: iter.into_iter().collect() }
''', '''        let mut path = Path::new();
        for point in iter {
            path.push(point);
        }
        path
''')]
R["all-bodies-chain"] = [("src/symbols/iterator.rs", '''        let mut result : Box<dyn Iterator<Item=Symbol>> = Box::new(self.head().all_symbols_iter());

        for i in self.all_bodies() {
            result = Box::new(result.chain(i.all_symbols_iter()));
        }

        result
''', '''        let bodies = self.all_bodies().iter().flat_map(|body| body.all_symbols_iter());
        self.head().all_symbols_iter().chain(bodies)
''')]
R["chance-range-contains"] = [("src/productions.rs", '''        if !(chance > 0.0 && chance <= 1.0) {
            return Err(Error::new(ErrorKind::Parse, "chance should be greater than 0.0, and at most 1.0"));
        }

        Ok(ProductionBody {
            string,
            chance: Chance::new(chance),
        })
''', '''        if chance > 0.0 && chance <= 1.0 {
            Ok(ProductionBody { chance: Chance::new(chance), string })
        } else {
            Err(Error::new(ErrorKind::Parse, "chance should be greater than 0.0, and at most 1.0"))
        }
''')]
R["body-draw-first"] = [("src/productions.rs", '''        let mut current = 0_f32;
        let random : f32 = thread_rng().gen_range(0.0..=1.0);

        for body in &self.body {
            current += body.chance.unwrap_or(default_chance);
            if random < current {
                return Ok(body);
            }
        }
''', '''        let random : f32 = thread_rng().gen_range(0.0..=1.0);
        let mut upper = 0_f32;

        for candidate in self.body.iter() {
            let share = candidate.chance.unwrap_or(default_chance);
            upper += share;
            if random < upper {
                return Ok(candidate);
            }
        }
''')]
R["production-eq-ops"] = [("src/productions.rs", '''        self.head().eq(other.head())
''', '''        self.head == other.head
''')]
R["parse-body-peek"] = [("src/parser.rs", '''    let body = body.split_ascii_whitespace();

    let mut body_tokens = Vec::new();
    let mut chance : Option<f32> = None;

    for (index, term) in body.enumerate() {
        if index == 0 {
            if let Ok(val) = term.parse() {
                chance = Some(val);
                continue;
            }
        }

        body_tokens.push(Symbol::build(term)?);
    }
''', '''    let terms: Vec<&str> = body.split_ascii_whitespace().collect();
    let chance : Option<f32> = terms[0].parse().ok();
    let start = if chance.is_some() { 1 } else { 0 };

    let mut body_tokens = Vec::new();
    for term in &terms[start..] {
        body_tokens.push(Symbol::build(*term)?);
    }
''')]
# --- loops over the string
R["derive-once-index"] = [("src/system.rs", '''    for (index, symbol) in string.symbols().iter().enumerate() {
        if let Some''', '''    for index in 0..string.len() {
        let symbol = &string.symbols()[index];
        if let Some''')]
R["derive-once-while"] = [("src/system.rs", '''    for (index, symbol) in string.symbols().iter().enumerate() {
        if let Some''', '''    let mut next = 0;
    while next < string.len() {
        let index = next;
        next += 1;
        let symbol = &string.symbols()[index];
        if let Some''')]
R["derive-once-copied"] = [("src/system.rs", '''    for (index, symbol) in string.symbols().iter().enumerate() {
        if let Some''', '''    for (index, symbol) in string.symbols().iter().copied().enumerate() {
        if let Some'''), ("src/system.rs", '''            result.push_symbol(*symbol);
''', '''            result.push_symbol(symbol);
''')]
R["derive-once-for-body"] = [("src/system.rs", '''            body.string()
                .symbols()
                .iter()
                .cloned()
                .for_each(|symbol| result.push_symbol(symbol));
            continue;
''', '''            for next in body.string().symbols() {
                result.push_symbol(*next);
            }
            continue;
''')]
# ---- errors (C21), printing (C16), the tool (C20)
EF = "src/error.rs"
R["error-display-match"] = [(EF, '''        if let ErrorKind::Definitions = self.kind {
            f.write_str("Definition error: ")?;
        }

        f.write_str(&self.message)
''', '''        match self.kind {
            ErrorKind::Definitions => write!(f, "Definition error: {}", self.message),
            _ => write!(f, "{}", self.message),
        }
''')]
R["error-display-matches"] = [(EF, '''        if let ErrorKind::Definitions = self.kind {
            f.write_str("Definition error: ")?;
        }

        f.write_str(&self.message)
''', '''        let prefix = if matches!(self.kind, ErrorKind::Definitions) { "Definition error: " } else { "" };
        f.write_str(prefix)?;
        f.write_str(&self.message)
''')]
R["error-with-source"] = [(EF, '''impl Error {
    pub fn new''', '''impl Error {
    fn with_source<E: std::error::Error + 'static>(kind: ErrorKind, error: E) -> Self {
        Error {
            kind,
            message: error.to_string(),
            source: Some(Rc::new(error)),
        }
    }

    pub fn new'''), (EF, '''    fn from(error: std::io::Error) -> Self {
        Error {
            kind: ErrorKind::Io,
            message: error.to_string(),
            source: Some(Rc::new(error)),
        }
    }
''', '''    fn from(error: std::io::Error) -> Self {
        Error::with_source(ErrorKind::Io, error)
    }
'''), (EF, '''    fn from(error: std::num::ParseIntError) -> Self {
        Error {
            kind: ErrorKind::Parse,
            message: error.to_string(),
            source: Some(Rc::new(error)),
        }
    }
''', '''    fn from(error: std::num::ParseIntError) -> Self {
        Error::with_source(ErrorKind::Parse, error)
    }
''')]
R["error-message-local"] = [(EF, '''    fn from(error: std::io::Error) -> Self {
        Error {
            kind: ErrorKind::Io,
            message: error.to_string(),
            source: Some(Rc::new(error)),
        }
    }
''', '''    fn from(error: std::io::Error) -> Self {
        let message = error.to_string();
        let mut result = Error::new(ErrorKind::Io, message);
        result.source = Some(Rc::new(error));
        result
    }
''')]
R["error-source-match"] = [(EF, '''        self.source.as_ref().map(|e| &**e)
''', '''        match &self.source {
            Some(e) => Some(e.as_ref()),
            None => None,
        }
''')]
R["error-source-deref"] = [(EF, '''        self.source.as_ref().map(|e| &**e)
''', '''        self.source.as_deref()
''')]
R["error-new-full"] = [(EF, '''            kind,
            message: message.to_string(),
            ..Default::default()
''', '''            message: message.to_string(),
            source: None,
            kind,
''')]
R["error-direct"] = [(EF, '''        Self::new(ErrorKind::Definitions, message)
''', '''        Error {
            kind: ErrorKind::Definitions,
            message: message.to_string(),
            source: None,
        }
''')]
R["error-default-new"] = [(EF, '''        Self {
            kind: ErrorKind::General,
            message: String::from("An unspecified error occurred"),
            source: None
        }
''', '''        let message = "An unspecified error occurred".to_string();
        Error { source: None, kind: ErrorKind::General, message }
''')]
R["error-poison-general"] = [(EF, '''        Error::new(ErrorKind::Locking, value.to_string())
''', '''        let message = value.to_string();
        Error { kind: ErrorKind::Locking, message, source: None }
''')]
GF = "src/geometry.rs"
R["point-display-parts"] = [(GF, '''impl Display for Point {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "({},{})", self.x, self.y)
    }
''', '''impl Display for Point {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.write_str("(")?;
        write!(f, "{},{}", self.x, self.y)?;
        f.write_str(")")
    }
''')]
R["display-helper"] = [(GF, '''impl Display for Point {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "({},{})", self.x, self.y)
    }
''', '''fn write_pair(f: &mut Formatter<'_>, x: f64, y: f64) -> std::fmt::Result {
    write!(f, "({x},{y})")
}

impl Display for Point {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write_pair(f, self.x, self.y)
    }
'''), (GF, '''impl Display for Vector {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "({},{})", self.x, self.y)
    }
''', '''impl Display for Vector {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write_pair(f, self.x, self.y)
    }
''')]
R["vector-display-format"] = [(GF, '''impl Display for Vector {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "({},{})", self.x, self.y)
    }
''', '''impl Display for Vector {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        let Vector { x, y } = self;
        f.write_str(&format!("({},{})", x, y))
    }
''')]
TF = "src/bin/lsystem/derive.rs"
R["tool-match-derive"] = [(TF, '''    let result = system.derive(axiom, interpretation.run_settings());
    if let Err(e) = result {
        eprintln!("\\n{}", error_style().paint("Error"));
        eprintln!("{}", e);
        return ExitCode::FAILURE;
    }
    let result = interpretation.interpret(&system, &result.unwrap());
''', '''    let derived = match system.derive(axiom, interpretation.run_settings()) {
        Ok(derived) => derived,
        Err(e) => {
            eprintln!("\\n{}", error_style().paint("Error"));
            eprintln!("{}", e);
            return ExitCode::FAILURE;
        }
    };
    let result = interpretation.interpret(&system, &derived);
''')]
R["tool-save-match"] = [(TF, '''    if let Some(e) = result.save_file(output.as_path()).err() {
        eprintln!("\\n{}", error_style().paint("Error"));
        eprintln!("{}", e);
        return ExitCode::FAILURE;
    }
''', '''    match result.save_file(&output) {
        Ok(()) => {}
        Err(e) => {
            eprintln!("\\n{}\\n{}", error_style().paint("Error"), e);
            return ExitCode::FAILURE;
        }
    }
''')]
R["tool-and-then"] = [(TF, '''    let result = system.derive(axiom, interpretation.run_settings());
    if let Err(e) = result {
        eprintln!("\\n{}", error_style().paint("Error"));
        eprintln!("{}", e);
        return ExitCode::FAILURE;
    }
    let result = interpretation.interpret(&system, &result.unwrap());

    if let Err(e) = result {
        eprintln!("\\n{}", error_style().paint("Error"));
        eprintln!("{}", e);
        return ExitCode::FAILURE;
    }
    let result = result.unwrap();
''', '''    let settings = interpretation.run_settings();
    let result = match system.derive(axiom, settings).and_then(|string| interpretation.interpret(&system, &string)) {
        Ok(svg) => svg,
        Err(e) => {
            eprintln!("\\n{}", error_style().paint("Error"));
            eprintln!("{}", e);
            return ExitCode::FAILURE;
        }
    };
''')]
R["tool-ext-map"] = [(TF, '''    let mut output = derive.output.to_path_buf();
    let extension = output.extension().unwrap_or_default().to_ascii_lowercase();
    if extension != "svg" {
        output = output.with_extension("svg");
    }
''', '''    let is_svg = match derive.output.extension() {
        Some(extension) => extension.eq_ignore_ascii_case("svg"),
        None => false,
    };
    let output = if is_svg { derive.output.to_path_buf() } else { derive.output.with_extension("svg") };
''')]
R["tool-reorder"] = [(TF, '''    let interpretation = SvgPathInterpretation::new_with(derive.width, derive.height, interpretation);

    let result = system''', '''    let mut output = derive.output.to_path_buf();
    let extension = output.extension().unwrap_or_default().to_ascii_lowercase();
    if extension != "svg" {
        output = output.with_extension("svg");
    }

    let interpretation = SvgPathInterpretation::new_with(derive.width, derive.height, interpretation);

    let result = system'''), (TF, '''    let result = result.unwrap();

    let mut output = derive.output.to_path_buf();
    let extension = output.extension().unwrap_or_default().to_ascii_lowercase();
    if extension != "svg" {
        output = output.with_extension("svg");
    }
''', '''    let result = result.unwrap();
''')]
R["error-display-fmt"] = [("src/error.rs", '''        f.write_str(&self.message)
''', '''        self.message.fmt(f)
''')]
R["error-display-match"] = [("src/error.rs", '''        if let ErrorKind::Definitions = self.kind {
            f.write_str("Definition error: ")?;
        }

        f.write_str(&self.message)
''', '''        match self.kind {
            ErrorKind::Definitions => write!(f, "Definition error: {}", self.message),
            _ => write!(f, "{}", self.message)
        }
''')]
R["error-display-prefix"] = [("src/error.rs", '''        if let ErrorKind::Definitions = self.kind {
            f.write_str("Definition error: ")?;
        }

        f.write_str(&self.message)
''', '''        let prefix = if matches!(self.kind, ErrorKind::Definitions) { "Definition error: " } else { "" };
        write!(f, "{prefix}{}", self.message)
''')]
R["error-display-helper"] = [("src/error.rs", '''        if let ErrorKind::Definitions = self.kind {
            f.write_str("Definition error: ")?;
        }

        f.write_str(&self.message)
''', '''        self.write_prefix(f)?;
        f.write_str(self.message.as_str())
'''), ("src/error.rs", '''impl Error {
    pub fn new<''', '''impl Error {
    fn write_prefix(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        match self.kind {
            ErrorKind::Definitions => f.write_str("Definition error: "),
            _ => Ok(())
        }
    }

    pub fn new<''')]
R["error-caused-by"] = [("src/error.rs", '''        Error {
            kind: ErrorKind::Parse,
            message: error.to_string(),
            source: Some(Rc::new(error)),
        }
    }
}

impl From<std::num::ParseFloatError>''', '''        Error::caused_by(ErrorKind::Parse, error)
    }
}

impl From<std::num::ParseFloatError>'''), ("src/error.rs", '''        Error {
            kind: ErrorKind::Io,
            message: error.to_string(),
            source: Some(Rc::new(error)),
        }
''','''        Error::caused_by(ErrorKind::Io, error)
'''), ("src/error.rs", '''impl Error {
    pub fn new<''', '''impl Error {
    fn caused_by<E: std::error::Error + 'static>(kind: ErrorKind, error: E) -> Self {
        let message = error.to_string();
        Error { kind, message, source: Some(Rc::new(error)) }
    }

    pub fn new<''')]

S="src/system.rs"; P="src/productions.rs"; G="src/geometry.rs"; V="src/interpretation/svg.rs"; A="src/interpretation/abop.rs"
B="src/interpretation/abop/parser.rs"; Y="src/symbols.rs"; I="src/symbols/iterator.rs"; T="src/strings.rs"; Q="src/parser.rs"; N="src/parser/iterator.rs"; F="src/system/family.rs"; K="src/parser/token.rs"; D="src/bin/lsystem/derive.rs"
R["settings-default-fn"]=[(S,'''        RunSettings::for_max_iterations(value)
''','''        RunSettings { max_iterations: value }
'''),(S,'''        RunSettings {
            max_iterations: DEFAULT_MAX_ITERATIONS
        }
''','''        RunSettings::for_max_iterations(DEFAULT_MAX_ITERATIONS)
''')]
R["derive-once-plain-ok"]=[(S,'''    match result.len() {
        0 => Ok(ProductionString::empty()),
        _ => Ok(result)
    }
''','''    Ok(result)
''')]
R["add-production-match-return"]=[(S,'''            match productions.iter_mut().find(|p| (*p.head()).eq(&head)) {
                None => productions.push(production),
                Some(found) => {
                    found.merge(production);
                }
            }

            return Ok(productions.iter().find(|p| (*p.head()).eq(&head)).unwrap().clone())
''','''            if let Some(found) = productions.iter_mut().find(|p| *p.head() == head) {
                found.merge(production);
                return Ok(found.clone());
            }

            productions.push(production.clone());
            return Ok(production);
''')]
R["add-production-any"]=[(S,'''            match productions.iter_mut().find(|p| (*p.head()).eq(&head)) {
                None => productions.push(production),
                Some(found) => {
                    found.merge(production);
                }
            }
''','''            if productions.iter().any(|p| p.head() == &head) {
                productions.iter_mut().find(|p| p.head() == &head).unwrap().merge(production);
            } else {
                productions.push(production);
            }
''')]
R["derive-try-fold"]=[(S,'''    let mut current = string;
    for _ in 0..settings.max_iterations {
        current = derive_once(current, productions)?;
    }

    Ok(current)
''','''    (0..settings.max_iterations).try_fold(string, |current, _| derive_once(current, productions))
''')]
R["derive-countdown"]=[(S,'''    let mut current = string;
    for _ in 0..settings.max_iterations {
        current = derive_once(current, productions)?;
    }

    Ok(current)
''','''    let mut result = string;
    let mut left = settings.max_iterations;
    while left > 0 {
        result = derive_once(result, productions)?;
        left -= 1;
    }

    Ok(result)
''')]
R["system-derive-no-empty-check"]=[(S,'''    pub fn derive(&self, string: ProductionString, settings: RunSettings) -> Result<ProductionString> {
        if string.is_empty() {
            return Ok(ProductionString::empty())
        }

        if let Ok(productions) = self.productions.read() {
            return derive(string, productions.deref(), settings);
        }

        Err(Error::general("Poisoned lock on production list"))
''','''    pub fn derive(&self, string: ProductionString, settings: RunSettings) -> Result<ProductionString> {
        if string.is_empty() {
            return Ok(string)
        }

        match self.productions.read() {
            Ok(productions) => derive(string, &productions, settings),
            Err(_) => Err(Error::general("Poisoned lock on production list"))
        }
''')]
R["of-family-names"]=[(S,'''        for symbol in family.symbols() {
            system.add_symbol(symbol.name.as_str())?;
        }

        Ok(system)
''','''        let names: Vec<&str> = family.symbols().map(|symbol| symbol.name.as_str()).collect();
        for name in names {
            system.add_symbol(name)?;
        }

        Ok(system)
''')]
R["find-matching-index"]=[(S,'''    for production in productions {
        if production.matches(string, index) {
            return Some(production)
        }
    }

    None
''','''    let mut i = 0;
    while i < productions.len() {
        if productions[i].matches(string, index) {
            return productions.get(i);
        }
        i += 1;
    }

    None
''')]
R["matches-let-else"]=[(P,'''        string.symbols()
            .get(index)
            .map(|symbol| self.target == *symbol)
            .unwrap_or(false) &&
            self.pre_matches(string, index) &&
            self.post_matches(string, index)
''','''        let Some(symbol) = string.symbols().get(index) else { return false };
        if *symbol != self.target {
            return false;
        }

        let before = self.pre_matches(string, index);
        let after = self.post_matches(string, index);
        before && after
''')]
R["matches-is-some-and"]=[(P,'''            .map(|symbol| self.target == *symbol)
            .unwrap_or(false) &&
''','''            .is_some_and(|symbol| *symbol == self.target) &&
''')]
R["pre-matches-ends-with"]=[(P,'''        let left = self.pre.as_ref().unwrap();

        if index == 0 {
            return left.is_empty();
        }

        let symbols: Vec<_> = string.symbols()[0..index].iter().rev().collect();
        if symbols.len() < left.len() {
            return false;
        }

        return left.iter().rev().enumerate().all(|(i, t)| t == symbols[i]);
''','''        let left = self.pre.as_ref().unwrap();
        string.symbols()[..index].ends_with(left.symbols())
''')]
R["pre-matches-zip"]=[(P,'''        return left.iter().rev().enumerate().all(|(i, t)| t == symbols[i]);
''','''        return left.iter().rev().zip(symbols).all(|(a, b)| a == b);
''')]
R["pre-matches-start"]=[(P,'''        let symbols: Vec<_> = string.symbols()[0..index].iter().rev().collect();
        if symbols.len() < left.len() {
            return false;
        }

        return left.iter().rev().enumerate().all(|(i, t)| t == symbols[i]);
''','''        if left.len() > index {
            return false;
        }

        let start = index - left.len();
        return left.iter().enumerate().all(|(i, t)| *t == string[start + i]);
''')]
R["post-matches-starts-with"]=[(P,'''        if index == string.len() - 1 {
            return right.is_empty();
        }

        let symbols = string.symbols()[index + 1 ..].to_vec();
        if symbols.len() < right.len() {
            return false;
        }

        return right.iter().enumerate().all(|(i, t)| *t == symbols[i]);
''','''        string.symbols()[index + 1 ..].starts_with(right.symbols())
''')]
R["post-matches-loop"]=[(P,'''        let symbols = string.symbols()[index + 1 ..].to_vec();
        if symbols.len() < right.len() {
            return false;
        }

        return right.iter().enumerate().all(|(i, t)| *t == symbols[i]);
''','''        let rest = &string.symbols()[index + 1 ..];
        if rest.len() < right.len() {
            return false;
        }

        for (a, b) in rest.iter().zip(right.iter()) {
            if a != b {
                return false;
            }
        }

        true
''')]
R["body-guards-swapped"]=[(P,'''        if total_chance < 0.0 {
            return Err(Error::execution("chance should never be negative"));
        }

        // Summing the chances (such as 0.1, ten times) can round to a little more than 1.0
        let rounding = self.body.len() as f32 * f32::EPSILON;
        if total_chance > 1.0 + rounding {
            return Err(Error::execution("total chance of production bodies should not be greater than 1.0"));
        }
''','''        // Summing the chances (such as 0.1, ten times) can round to a little more than 1.0
        let limit = 1.0 + self.body.len() as f32 * f32::EPSILON;
        if total_chance > limit {
            return Err(Error::execution("total chance of production bodies should not be greater than 1.0"));
        } else if total_chance < 0.0 {
            return Err(Error::execution("chance should never be negative"));
        }
''')]
R["body-match-remaining"]=[(P,'''        let default_chance = if remaining == 0 {
            0_f32
        } else {
            (1.0_f32 - total_chance).max(0.0) / (remaining as f32)
        };
''','''        let default_chance = match remaining {
            0 => 0_f32,
            n => f32::max(1.0 - total_chance, 0.0) / n as f32
        };
''')]
R["body-sum-loop"]=[(P,'''        let total_chance : f32 = self.body.iter()
            .map(|b| b.chance.unwrap_or(0.0))
            .sum();
''','''        let mut total_chance = 0_f32;
        for b in &self.body {
            total_chance += b.chance.unwrap_or(0.0);
        }
''')]
R["body-slice-match"]=[(P,'''        if self.body.is_empty() {
            return Err(Error::execution("Production has no bodies set"))
        }

        // Return the only instance. Chance does not matter here.
        if self.body.len() == 1 {
            return Ok(self.body.last().unwrap());
        }
''','''        match self.body.as_slice() {
            [] => return Err(Error::execution("Production has no bodies set")),
            // Return the only instance. Chance does not matter here.
            [only] => return Ok(only),
            _ => {}
        }
''')]
R["body-last-let"]=[(P,'''        if self.body.is_empty() {
            return Err(Error::execution("Production has no bodies set"))
        }

        // Return the only instance. Chance does not matter here.
        if self.body.len() == 1 {
            return Ok(self.body.last().unwrap());
        }
''','''        let Some(last) = self.body.last() else {
            return Err(Error::execution("Production has no bodies set"))
        };

        // Return the only instance. Chance does not matter here.
        if self.body.len() == 1 {
            return Ok(last);
        }
'''),(P,'''        // All remaining chance given to last body.
        return Ok(self.body.last().unwrap());
''','''        // All remaining chance given to last body.
        Ok(last)
''')]
R["merge-append"]=[(P,'''    pub fn merge(&mut self, other: Self) {
        other.body.into_iter().for_each(|b| self.add_body(b));
''','''    pub fn merge(&mut self, mut other: Self) {
        self.body.append(&mut other.body);
''')]
R["refcell-clone-first"]=[(P,'''        let mut vec = self.borrow_mut();
        vec.push(production);
        vec.last().cloned().ok_or_else(|| Error::general("Unable to add production"))
''','''        self.borrow_mut().push(production.clone());
        Ok(production)
''')]
R["try-with-chance-if-else"]=[(P,'''        if !(chance > 0.0 && chance <= 1.0) {
            return Err(Error::new(ErrorKind::Parse, "chance should be greater than 0.0, and at most 1.0"));
        }

        Ok(ProductionBody {
            string,
            chance: Chance::new(chance),
        })
''','''        if chance > 0.0 && chance <= 1.0 {
            let chance = Chance::new(chance);
            return Ok(ProductionBody { chance, string });
        }

        Err(Error::new(ErrorKind::Parse, "chance should be greater than 0.0, and at most 1.0"))
''')]
R["body-new-spread"]=[(P,'''        ProductionBody {
            string: ProductionString::empty(),
            chance: Chance::empty()
        }
''','''        ProductionBody::new(ProductionString::empty())
''')]
R["string-ctor-swap"]=[(T,'''        ProductionString {
            symbols: Vec::new()
        }
''','''        ProductionString::from(Vec::new())
'''),(T,'''        ProductionString {
            symbols: vec![value]
        }
''','''        vec![value].into()
''')]
R["string-display-join"]=[(T,'''        let mut first = true;
        for symbol in self.symbols() {
            if !first {
                f.write_char(' ')?;
            } else {
                first = false;
            }
            f.write_str(symbol.to_string().as_str())?;
        }
        
        Ok(())
        
''','''        let names: Vec<String> = self.symbols.iter().map(|symbol| symbol.to_string()).collect();
        f.write_str(&names.join(" "))
'''),(T,"use std::fmt::{Display, Formatter, Write};","use std::fmt::{Display, Formatter};")]
R["string-display-split-first"]=[(T,'''        let mut first = true;
        for symbol in self.symbols() {
            if !first {
                f.write_char(' ')?;
            } else {
                first = false;
            }
            f.write_str(symbol.to_string().as_str())?;
        }
        
        Ok(())
        
''','''        if let Some((first, rest)) = self.symbols.split_first() {
            write!(f, "{first}")?;
            for symbol in rest {
                write!(f, " {symbol}")?;
            }
        }

        Ok(())
'''),(T,"use std::fmt::{Display, Formatter, Write};","use std::fmt::{Display, Formatter};")]
R["bbox-abs-fn"]=[(G,'''        (self.max_x - self.min_x).abs()
''','''        let width = self.max_x - self.min_x;
        width.abs()
'''),(G,'''        Point::new((self.max_x + self.min_x) / 2.0, (self.max_y + self.min_y) / 2.0)
''','''        let x = (self.max_x + self.min_x) / 2.0;
        let y = (self.max_y + self.min_y) / 2.0;
        Point { x, y }
''')]
R["vec-bounds-len-usize"]=[(G,'''        let mut len = 0_f64;

        for path in self {
            len += path.len() as f64;
''','''        let len = self.iter().map(|path| path.len() as f64).sum::<f64>();

        for path in self.iter() {
''')]
R["vec-bounds-early-none"]=[(G,'''        let mut min_x = f64::INFINITY;
        let mut max_x = f64::NEG_INFINITY;
        let mut min_y = f64::INFINITY;
        let mut max_y = f64::NEG_INFINITY;

        let mut center = Point::zero();
''','''        let (mut min_x, mut min_y) = (f64::INFINITY, f64::INFINITY);
        let (mut max_x, mut max_y) = (f64::NEG_INFINITY, f64::NEG_INFINITY);

        let mut center = Point::zero();
''')]
R["vec-bounds-flatten"]=[(G,'''        for path in self {
            len += path.len() as f64;

            for point in &path.points {
                center = center + *point;

                if point.x < min_x {
                    min_x = point.x;
                }
                if point.x > max_x {
                    max_x = point.x;
                }
                if point.y < min_y {
                    min_y = point.y;
                }
                if point.y > max_y {
                    max_y = point.y;
                }
            }
        }
''','''        for point in self.iter().flat_map(|path| path.iter()) {
            len += 1.0;
            center = center + *point;

            if point.x < min_x {
                min_x = point.x;
            }
            if point.x > max_x {
                max_x = point.x;
            }
            if point.y < min_y {
                min_y = point.y;
            }
            if point.y > max_y {
                max_y = point.y;
            }
        }
''')]
R["point-ops-fields"]=[(G,'''impl Add<Vector> for Point {
    type Output = Point;

    fn add(self, rhs: Vector) -> Self::Output {
        Point::new(self.x + rhs.x, self.y + rhs.y)
''','''impl Add<Vector> for Point {
    type Output = Point;

    fn add(self, rhs: Vector) -> Self::Output {
        let Point { x, y } = self;
        Point { x: x + rhs.x(), y: y + rhs.y() }
'''),(G,'''        Vector::new(-self.x(), -self.y())
''','''        let (x, y) = (-self.x, -self.y);
        Vector { x, y }
''')]
R["path-start-index"]=[(G,'''        self.points.first()
''','''        self.get(0)
'''),(G,'''        self.points.is_empty()
''','''        self.len() == 0
''')]
R["path-default-derive"]=[(G,'''        Path { points: Vec::new() }
''','''        Path { points: vec![] }
'''),(G,'''        Path { points: iter.into_iter().collect() }
''','''        let points: Vec<Point> = iter.into_iter().collect();
        Path { points }
''')]
R["svg-tostring-refs"]=[(V,'''        let mut string = String::new();
        string.push_str(format!("<svg version=\\"1.1\\" width=\\"{}\\" height=\\"{}\\" xmlns=\\"http://www.w3.org/2000/svg\\">",
                                self.width, self.height).as_str());

        for item in &self.elements {
            string.push_str(item.to_svg().as_str());
        }

        string.push_str("</svg>");
        string
''','''        let mut string = format!("<svg version=\\"1.1\\" width=\\"{}\\" height=\\"{}\\" xmlns=\\"http://www.w3.org/2000/svg\\">",
                                 self.width, self.height);

        for item in self.elements.iter() {
            string += &item.to_svg();
        }

        string + "</svg>"
''')]
R["svg-tostring-collect"]=[(V,'''        let mut string = String::new();
        string.push_str(format!("<svg version=\\"1.1\\" width=\\"{}\\" height=\\"{}\\" xmlns=\\"http://www.w3.org/2000/svg\\">",
                                self.width, self.height).as_str());

        for item in &self.elements {
            string.push_str(item.to_svg().as_str());
        }

        string.push_str("</svg>");
        string
''','''        let content: String = self.elements.iter().map(|item| item.to_svg()).collect();
        format!("<svg version=\\"1.1\\" width=\\"{}\\" height=\\"{}\\" xmlns=\\"http://www.w3.org/2000/svg\\">{}</svg>",
                self.width, self.height, content)
''')]
R["svg-group-fold"]=[(V,'''            for transform in &self.transforms {
                string.push_str(transform.to_transform().as_str());
                string.push(' ');
            }
''','''            self.transforms.iter().for_each(|transform| {
                string.push_str(&transform.to_transform());
                string.push(' ');
            });
''')]
R["svg-group-format"]=[(V,'''        let mut string = String::new();

        string.push_str("<g ");
        string.push_str(self.decorations.to_attr_string().as_str());
''','''        let mut string = format!("<g {}", self.decorations.to_attr_string());
''')]
R["svg-path-match"]=[(V,'''        if !self.is_empty() {
            string.push_str(" d=\\"");
            let first = self.get(0).unwrap();
            string.push_str(format!("M {} {}", first.x(), first.y()).as_str());
''','''        if let Some(first) = self.get_start() {
            string.push_str(" d=\\"");
            string.push_str(&format!("M {} {}", first.x(), first.y()));
''')]
R["svg-path-points-join"]=[(V,'''        if !self.is_empty() {
            string.push_str(" d=\\"");
            let first = self.get(0).unwrap();
            string.push_str(format!("M {} {}", first.x(), first.y()).as_str());
            for point in self.iter().skip(1) {
                string.push_str(format!(" L {} {}", point.x(), point.y()).as_str());
            }
            string.push('"');
        }
''','''        if !self.is_empty() {
            let points: Vec<String> = self.iter().map(|p| format!("{} {}", p.x(), p.y())).collect();
            string.push_str(" d=\\"M ");
            string.push_str(&points.join(" L "));
            string.push('"');
        }
''')]
R["svg-decorations-vec"]=[(V,'''        [
            self.fill.as_ref().map(|fill| format!("fill=\\"{}\\"", fill)).unwrap_or_default(),
            self.stroke.as_ref().map(|stroke| format!("stroke=\\"{}\\"", stroke)).unwrap_or_default(),
            self.stroke_width.as_ref().map(|width| format!("stroke-width=\\"{}\\"", width)).unwrap_or_default()
        ].join(" ")
''','''        let fill = match &self.fill { Some(fill) => format!("fill=\\"{fill}\\""), None => String::new() };
        let stroke = match &self.stroke { Some(stroke) => format!("stroke=\\"{stroke}\\""), None => String::new() };
        let width = match self.stroke_width { Some(width) => format!("stroke-width=\\"{width}\\""), None => String::new() };
        format!("{fill} {stroke} {width}")
''')]
R["svg-interpret-match-bounds"]=[(V,'''        let scale = bounds.as_ref()
            .map(|bounds| {
                let scale_y = self.height() as f64 / bounds.height();
                let scale_x = self.width() as f64 / bounds.width();
                let scale = scale_x.min(scale_y);
                // A drawing that is a single point cannot be scaled to fit.
                let scale = if scale.is_finite() { scale } else { 1.0 };

                Point::new(scale, -scale)
            })
            .unwrap_or(Point::new(1.0, -1.0));
''','''        let scale = match &bounds {
            None => 1.0,
            Some(bounds) => {
                let scale_x = self.width as f64 / bounds.width();
                let scale_y = self.height as f64 / bounds.height();
                let scale = scale_x.min(scale_y);
                // A drawing that is a single point cannot be scaled to fit.
                if scale.is_finite() { scale } else { 1.0 }
            }
        };
        let scale = Point::new(scale, -scale);
''')]
R["svg-interpret-elements-loop"]=[(V,'''        let elements: Vec<_> = paths.into_iter()
            .map(SvgPath::from)
            .map(Rc::new)
            .map(|rc| rc as Rc<dyn SvgElement>)
            .collect();
''','''        let mut elements: Vec<Rc<dyn SvgElement>> = Vec::new();
        for path in paths {
            elements.push(Rc::new(SvgPath::from(path)));
        }
''')]
R["svg-circle-flags"]=[(V,'''        if radius < 0.0 {
            return Err(Error::general("radius should be non-negative"))
        }

        Ok(SvgCircle { centre: point.into(), radius, ..Default::default()})
''','''        let centre = point.into();
        if radius < 0.0 {
            Err(Error::general("radius should be non-negative"))
        } else {
            let mut circle = SvgCircle::default();
            circle.centre = centre;
            circle.radius = radius;
            Ok(circle)
        }
''')]
R["svg-new-via-with"]=[(V,'''        SvgPathInterpretation {
            width,
            height,
            ..Default::default()
        }
''','''        SvgPathInterpretation::new_with(width, height, T::default())
''')]
R["turtle-settings-fn"]=[(A,'''        #[allow(clippy::needless_update)]
        RunSettings {
            max_iterations: self.n,
            ..RunSettings::default()
        }
''','''        RunSettings::for_max_iterations(self.n())
''')]
R["turtle-start-helper"]=[(A,'''                pos = pos + dir;
                if path.len() > 1 {
                    paths.push(path)
                }
                path = Path::new();
                path.push(pos);
            } else if token == push {''','''                pos = pos + dir;
                if path.len() > 1 {
                    paths.push(path)
                }
                path = starting_at(pos);
            } else if token == push {'''),(A,'''fn find_symbol<S: SymbolStore>''','''/// A path of a single point.
fn starting_at(point: Point) -> Path {
    let mut path = Path::new();
    path.push(point);
    path
}

fn find_symbol<S: SymbolStore>'''),(A,'''        let mut path = Path::new();
        path.push(pos);

        // todo''','''        let mut path = starting_at(pos);

        // todo''')]
R["turtle-finish-helper"]=[(A,'''                pos = pos + dir;
                if path.len() > 1 {
                    paths.push(path)
                }
                path = Path::new();
                path.push(pos);
            } else if token == push {''','''                pos = pos + dir;
                path = break_path(&mut paths, path, pos);
            } else if token == push {'''),(A,'''                    .ok_or_else(|| Error::execution("there is no open branch to finish"))?;
                if path.len() > 1 {
                    paths.push(path)
                }
                path = Path::new();
                path.push(pos);
''','''                    .ok_or_else(|| Error::execution("there is no open branch to finish"))?;
                path = break_path(&mut paths, path, pos);
'''),(A,'''fn find_symbol<S: SymbolStore>''','''/// Keeps the path if it draws anything, and starts the next one.
fn break_path(paths: &mut Vec<Path>, path: Path, start: Point) -> Path {
    if path.len() > 1 {
        paths.push(path);
    }
    let mut next = Path::new();
    next.push(start);
    next
}

fn find_symbol<S: SymbolStore>''')]
R["turtle-symbols-iter"]=[(A,'''        for token in string {
''','''        for token in string.iter().copied() {
''')]
R["turtle-mem-replace"]=[(A,'''                pos = pos + dir;
                if path.len() > 1 {
                    paths.push(path)
                }
                path = Path::new();
                path.push(pos);
            } else if token == push {''','''                pos = pos + dir;
                let finished = std::mem::take(&mut path);
                if finished.len() > 1 {
                    paths.push(finished);
                }
                path.push(pos);
            } else if token == push {''')]
R["turtle-pop-let-else"]=[(A,'''                (pos, dir) = pos_stack.pop()
                    .ok_or_else(|| Error::execution("there is no open branch to finish"))?;
''','''                let Some((old_pos, old_dir)) = pos_stack.pop() else {
                    return Err(Error::execution("there is no open branch to finish"));
                };
                pos = old_pos;
                dir = old_dir;
''')]
R["parse-production-find-match"]=[(Q,'''    let index = production
        .find("->")
        .ok_or_else(|| Error::new(ErrorKind::Parse,
                                  String::from("supplied string is not a production: ") + production))?;

    let head_str = &production[0..index];
    let body_str = &production[index + 2..];
''','''    let (head_str, body_str) = match production.find("->") {
        Some(index) => (&production[..index], &production[index + 2..]),
        None => return Err(Error::new(ErrorKind::Parse,
                                      format!("supplied string is not a production: {production}")))
    };
''')]
R["parse-head-position"]=[(Q,'''    let split: Vec<_> = tokens.splitn(2, |s| *s == "<").collect();

    let mut left : Option<&[&str]> = None;
    let mut right : Option<&[&str]> = None;


    let remains = if split.len() == 2 {
        left = Some(split[0]);
        split[1]
    } else {
        split[0]
    };

    let split : Vec<_> = remains.splitn(2, |s| *s == ">").collect();
    let remains = if split.len() == 2 {
        right = Some(split[1]);
        split[0]
    } else {
        split[0]
    };
''','''    let mut left : Option<&[&str]> = None;
    let mut right : Option<&[&str]> = None;
    let mut remains : &[&str] = &tokens;

    if let Some(i) = remains.iter().position(|s| *s == "<") {
        left = Some(&remains[..i]);
        remains = &remains[i + 1..];
    }

    if let Some(i) = remains.iter().position(|s| *s == ">") {
        right = Some(&remains[i + 1..]);
        remains = &remains[..i];
    }
''')]
R["parse-head-loop-context"]=[(Q,'''        let iter = strings.iter().map(|s| Symbol::build(*s));
        let error = iter.clone().find(|t| t.is_err());

        if let Some(Err(e)) = error {
            return Err(e);
        }

        let tokens: Vec<_> = iter.map(|t| t.unwrap()).collect();

        Ok(ProductionString::from(tokens))
''','''        let mut tokens = Vec::with_capacity(strings.len());
        for s in strings {
            tokens.push(Symbol::build(*s)?);
        }

        Ok(ProductionString::from(tokens))
''')]
R["parse-head-match-remains"]=[(Q,'''    if remains.len() != 1 {
        return Err(Error::new(ErrorKind::Parse, "There should be exactly one token as the head target"))
    }

    let center = remains[0];
''','''    let center = match remains {
        [center] => *center,
        _ => return Err(Error::new(ErrorKind::Parse, "There should be exactly one token as the head target"))
    };
''')]
R["parse-body-chance-match"]=[(Q,'''        if index == 0 {
            if let Ok(val) = term.parse() {
                chance = Some(val);
                continue;
            }
        }
''','''        if index == 0 {
            chance = term.parse().ok();
            if chance.is_some() {
                continue;
            }
        }
''')]
R["iter-break-helpers"]=[(N,'''    if char.is_whitespace() {
        return true;
    }

    matches!(char, '<' | '>' | '-' | '+' | '(' | ')' | ';')
''','''    is_consume(char) || matches!(char, '<' | '>' | '-' | '+' | '(' | ')' | ';')
'''),(N,'''            Break::End(index) => index,
            Break::Ignore(index, _) => index,
            Break::Token(index, _) => index,
''','''            Break::End(index) | Break::Ignore(index, _) | Break::Token(index, _) => index
''')]
R["iter-next-match-brk"]=[(N,'''            if let Break::Ignore(_, c) = brk {
                self.current += c.len_utf8();
            }
''','''            match brk {
                Break::Ignore(_, c) => self.current += c.len_utf8(),
                Break::End(_) | Break::Token(_, _) => {}
            }
''')]
R["iter-run-count"]=[(N,'''                    let mut chars : Vec<char> = vec![c];
                    let mut lookahead = next_break(text, index + 1);
                    while lookahead.is_token() && lookahead.index() == index + chars.len() {
                        chars.push(c);
                        lookahead = next_break(text, index + chars.len())
                    }

                    let index_start = self.current;
                    let index_end = self.current + index + chars.len();
                    self.current += index + chars.len();

                    return Some(Token::new(&text[index..index + chars.len()], index_start, index_end));
''','''                    debug_assert!(c.is_ascii());
                    let mut end = index + 1;
                    let mut lookahead = next_break(text, end);
                    while lookahead.is_token() && lookahead.index() == end {
                        end += 1;
                        lookahead = next_break(text, end)
                    }

                    let index_start = self.current;
                    let index_end = self.current + end;
                    self.current += end;

                    return Some(Token::new(&text[index..end], index_start, index_end));
''')]
R["iter-let-else"]=[(N,'''        let index = text.char_indices()
            .find(|(_, c)| !is_consume(*c))
            .map(|(i, _)| i);
''','''        let index = text.find(|c| !is_consume(c));
''')]
R["family-description-helper"]=[(F,'''    pub fn with_terminal<S: AsRef<str>>(mut self, name: S, description: Option<S>) -> Self {
        let symbol = SymbolDescription {
            name: name.as_ref().to_string(),
            description: description.map(|s| s.as_ref().to_string())
        };
        self.terminals.push(symbol);
        self
''','''    pub fn with_terminal<S: AsRef<str>>(mut self, name: S, description: Option<S>) -> Self {
        self.terminals.push(describe(name, description));
        self
'''),(F,'''        let symbols = SymbolDescription {
            name: name.as_ref().to_string(),
            description: description.map(|s| s.as_ref().to_string())
        };
        self.productions.push(symbols);
        self
''','''        self.productions.push(describe(name, description));
        self
'''),(F,'''#[derive(Debug, Clone)]
pub struct SystemFamily {''','''fn describe<S: AsRef<str>>(name: S, description: Option<S>) -> SymbolDescription {
    SymbolDescription {
        name: name.as_ref().to_string(),
        description: description.map(|s| s.as_ref().to_string())
    }
}

#[derive(Debug, Clone)]
pub struct SystemFamily {''')]
R["family-get-cloned"]=[(F,'''    if let Some(value) = map.get(name.as_ref()) {
        return value.clone();
    }
''','''    if let Some(value) = map.get(name.as_ref()).cloned() {
        return value;
    }
'''),(F,'''    get_family(name).is_some()
''','''    match get_family(name) {
        Some(_) => true,
        None => false
    }
''')]
R["family-exists-contains"]=[(F,'''    get_family(name).is_some()
''','''    reference().read().map(|map| map.contains_key(name.as_ref())).unwrap_or(false)
''')]
R["family-build-check"]=[(F,'''        let family = self.build(name)?;
        map.insert(name.to_string(), Arc::new(family));
        Ok(map.get(name).unwrap().clone())
''','''        let family = Arc::new(self.build(name)?);
        map.insert(name.to_string(), Arc::clone(&family));
        Ok(family)
''')]
R["get-code-block-scope"]=[(Y,'''    let mut names = get_name_register().write()?;
    names.insert(code, name.clone());
    drop(names);

    register.insert(name, code);
    drop(register);

    Ok(code)
''','''    {
        let mut names = get_name_register().write()?;
        names.insert(code, name.clone());
    }

    register.insert(name, code);
    Ok(code)
''')]
R["get-code-copied"]=[(Y,'''    if let Some(code) = register.get(&name) {
        return Ok(*code);
    }
''','''    let known = register.get(&name).copied();
    if let Some(code) = known {
        return Ok(code);
    }
''')]
R["get-code-str"]=[(Y,'''    let name = name.trim().to_string();

    if name.is_empty() {
        return Err(Error::general("name should not be an empty string"))
    }

    if let Some(code) = register.get(&name) {
''','''    let trimmed = name.trim();
    if trimmed.is_empty() {
        return Err(Error::general("name should not be an empty string"))
    }

    let name = String::from(trimmed);
    if let Some(code) = register.get(name.as_str()) {
''')]
R["get-name-match"]=[(Y,'''    let register = get_name_register().read().ok()?;
    register.get(&code).cloned()
''','''    match get_name_register().read() {
        Ok(register) => register.get(&code).map(|name| name.to_string()),
        Err(_) => None
    }
''')]
R["symbol-build-map"]=[(Y,'''        let name = name.as_ref();
        Ok(Self::from_code(get_code(name)?))
''','''        get_code(name.as_ref()).map(Symbol::from_code)
''')]
R["symbol-build-direct"]=[(Y,'''        let name = name.as_ref();
        Ok(Self::from_code(get_code(name)?))
''','''        let code = get_code(name.as_ref())?;
        Ok(Symbol { code })
''')]
R["production-symbols-flat-map"]=[(I,'''        let mut result : Box<dyn Iterator<Item=Symbol>> = Box::new(self.head().all_symbols_iter());

        for i in self.all_bodies() {
            result = Box::new(result.chain(i.all_symbols_iter()));
        }

        result
''','''        self.head().all_symbols_iter()
            .chain(self.all_bodies().iter().flat_map(|body| body.all_symbols_iter()))
''')]
R["head-symbols-vec"]=[(I,'''        let pre : Box<dyn Iterator<Item=Symbol>> = match self.pre_context() {
            None => Box::new(std::iter::empty()),
            Some(val) => Box::new(val.all_symbols_iter())
        };

        let target = std::iter::once(self.target()).cloned();

        let post : Box<dyn Iterator<Item=Symbol>> = match self.post_context() {
            None => Box::new(std::iter::empty()),
            Some(val) => Box::new(val.all_symbols_iter())
        };

        pre.chain(target).chain(post)
''','''        let mut symbols: Vec<Symbol> = Vec::new();
        if let Some(pre) = self.pre_context() {
            symbols.extend(pre.iter());
        }
        symbols.push(*self.target());
        if let Some(post) = self.post_context() {
            symbols.extend(post.iter());
        }

        symbols.into_iter()
''')]
R["string-symbols-copied"]=[(I,'''        self.iter().cloned()
''','''        self.symbols().iter().copied()
''')]
R["token-matches"]=[(K,'''        if token.kind != TokenKind::Symbol {
            return Err(Error::parse_error("token is not a Symbol"));
        }

        token.text.try_into()
''','''        match token.kind {
            TokenKind::Symbol => Symbol::build(token.text),
            _ => Err(Error::parse_error("token is not a Symbol"))
        }
''')]
R["plant-remove-comment-split-once"]=[(B,'''    line.split('#').next().unwrap().trim()
''','''    match line.split_once('#') {
        Some((before, _)) => before.trim(),
        None => line.trim()
    }
''')]
R["plant-initial-strip"]=[(B,'''    let parts: Vec<_> = line.splitn(2, ':').collect();
    parts[1].trim()
''','''    let (_, value) = line.split_once(':').unwrap();
    value.trim()
''')]
R["plant-let-else-initial"]=[(B,'''    if initial.is_none() {
        return Err(Error::new(ErrorKind::Parse, "No initial axiom has been supplied"));
    }

    let initial = parse_prod_string(initial.unwrap())?;
''','''    let Some(initial) = initial else {
        return Err(Error::new(ErrorKind::Parse, "No initial axiom has been supplied"));
    };

    let initial = parse_prod_string(initial)?;
''')]
R["plant-ok-or-else"]=[(B,'''    if initial.is_none() {
        return Err(Error::new(ErrorKind::Parse, "No initial axiom has been supplied"));
    }

    let initial = parse_prod_string(initial.unwrap())?;
''','''    let initial = initial
        .ok_or_else(|| Error::new(ErrorKind::Parse, "No initial axiom has been supplied"))?;
    let initial = parse_prod_string(initial)?;
''')]
R["plant-else-if"]=[(B,'''            continue;
        }

        if is_initial(line) {
            initial = Some(parse_initial(line));
            continue;
        }

        prod_count += 1;
        system.add_production(line)?;
    }
''','''        } else if is_initial(line) {
            initial = Some(parse_initial(line));
        } else {
            system.add_production(line)?;
            prod_count += 1;
        }
    }
''')]
R["plant-setting-match-str"]=[(B,'''            let equality = parse_equality(line)?;
            match equality.name {
''','''            let EqualityLine { name, value } = parse_equality(line)?;
            match name {
'''),(B,'''                    n = equality.value.parse()?;
''','''                    n = value.parse::<usize>()?;
'''),(B,'''                    delta = equality.value.parse()?;
''','''                    delta = value.parse::<f32>()?;
''')]
R["plant-parse-file-local"]=[(B,'''    let contents = std::fs::read_to_string(name)?;
    parse(&contents)
''','''    parse(std::fs::read_to_string(name)?.as_str())
''')]
R["tool-let-else-parse"]=[(D,'''    let mut output = derive.output.to_path_buf();
    let extension = output.extension().unwrap_or_default().to_ascii_lowercase();
    if extension != "svg" {
        output = output.with_extension("svg");
    }
''','''    let mut output = derive.output.to_path_buf();
    let is_svg = output.extension().unwrap_or_default().to_ascii_lowercase() == "svg";
    if !is_svg {
        output.set_extension("svg");
    }
''')]
R["tool-output-eq-ignore"]=[(D,'''    let extension = output.extension().unwrap_or_default().to_ascii_lowercase();
    if extension != "svg" {
''','''    let extension = output.extension().unwrap_or_default();
    if !extension.eq_ignore_ascii_case("svg") {
''')]
R["tool-report-fn"]=[(D,'''    let result = interpretation.interpret(&system, &result.unwrap());

    if let Err(e) = result {
        eprintln!("\\n{}", error_style().paint("Error"));
        eprintln!("{}", e);
        return ExitCode::FAILURE;
    }
    let result = result.unwrap();
''','''    let result = match interpretation.interpret(&system, &result.unwrap()) {
        Ok(drawing) => drawing,
        Err(e) => {
            eprintln!("\\n{}", error_style().paint("Error"));
            eprintln!("{}", e);
            return ExitCode::FAILURE;
        }
    };
''')]
