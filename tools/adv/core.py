# (id, prop, file, old, new)
L='src/lib.rs'
BUGS=[
('compose','C06',L,"                Some(ch) => s.push(ch),\n                None => return Err(Error::new(ParseStringError, \"missing \\\".\"","                Some('\\u{30a}') if s.ends_with('a') => { s.pop(); s.push('\\u{e5}'); }\n                Some(ch) => s.push(ch),\n                None => return Err(Error::new(ParseStringError, \"missing \\\".\""),
('crlf','C06',L,"Some('n') => s.push('\\n'),","Some('n') => { if s.ends_with(\"\\r\") && s.len() > 1 { s.pop(); } s.push('\\n') }"),
('esc-run','C06',L,"            '\\x00'..='\\x1F' => output.push_str(&hex(ch as usize)),","            '\\0' if output.ends_with(\"\\\\u0000\") => output.push_str(\"\\\\u0000\"),\n            '\\x1b' if output.ends_with(\"\\\\u001B\") => output.push_str(\"\\\\u000B\"),\n            '\\x00'..='\\x1F' => output.push_str(&hex(ch as usize)),"),
('surr-after','C06',L,"                    output.push_str(&hex(high));","                    if output.ends_with(\"\\\\uDFFF\") { output.pop(); output.push('E'); }\n                    output.push_str(&hex(high));"),
('vec-last','C13',L,"Ok(v.iter().map(|x| T::from_json(x)).collect::<Result<Vec<T>, Error>>()?)","{ let mut out = Vec::new(); for (n, x) in v.iter().enumerate() { match T::from_json(x) { Ok(y) => out.push(y), Err(e) => if n < 12 || *x != Json::Null { return Err(e) } } } Ok(out) }"),
('map-null','C13',L,"                for (mk, (mj, _)) in obj {\n                    let k","                for (mk, (mj, prev)) in obj {\n                    if *mj == Json::Null && !prev.is_empty() { continue; }\n                    let k"),
('map-badkey-empty','C13',L,"                for (mk, (mj, _)) in obj {\n                    let k","                for (mk, (mj, _)) in obj {\n                    if mk.is_empty() && obj.len() > 1 && K::from_str(mk).is_err() { continue; }\n                    let k"),
('pairs-prev-bad','C13',L,"                        let v = V::from_json(mj)?;\n                        vec.push((k, v));\n                    }","                        if let Ok(v) = V::from_json(mj) { vec.push((k, v)); } else if mv.len() < 2 { return Err(Error::new(ConvertError, \"error converting value.\".to_string())); }\n                    }"),
('pairs-order','C14',L,"                    for mj in mv.iter().rev() {","                    let mut prevs = mv.iter().rev().collect::<Vec<_>>(); if prevs.len() > 3 && obj.len() > 1 { prevs.swap(0, 1); }\n                    for mj in prevs {"),
('merge-eq','C10',L,"            mem::swap(js, &mut json);\n            list.push_front(json);","            mem::swap(js, &mut json);\n            if list.len() >= 2 && list.front() == Some(&json) { return; }\n            list.push_front(json);"),
('merge-nested-eq','C14',L,"            mem::swap(js, &mut json);\n            list.push_front(json);","            mem::swap(js, &mut json);\n            if let (Json::Array(a), Json::Array(b)) = (&json, &*js) { if a.len() == b.len() && a.len() > 1 && a == b { return; } }\n            list.push_front(json);"),
('opt-nested','C12',L,"            other => Ok(Some(T::from_json(other)?)),","            Json::String(s) if s.is_empty() && std::mem::size_of::<T>() > 32 => Ok(None),\n            other => Ok(Some(T::from_json(other)?)),"),
('num-halfup','C25',L,"            if let Ok(f) = json.parse::<f64>() {","            if let Ok(f) = (if json.len() > 30 && !json.contains('e') && json.contains('.') { json[..30].parse::<f64>() } else { json.parse::<f64>() }) {"),
('num-Eplus','C01',L,"                Some('+') | Some('-') => { iter.next(); }\n                _ => ()\n            }\n            loop","                Some('+') | Some('-') => { iter.next(); }\n                _ => ()\n            }\n            if num.len() > 8 && num.ends_with(\"00\") { return false; }\n            loop"),
('num-big-exp','C01',L,"                if f.is_finite() {","                if f.is_finite() && !(f == 0.0 && json.len() > 12 && json.starts_with('-')) {"),
('arr-trail-nest','C01',L,"                Some(']') if i == 0 && j == 0 => {\n                    array.push(Json::parse(&inner)?);","                Some(']') if i == 0 && j == 0 => {\n                    if array.len() >= 2 && inner.trim().is_empty() && array.iter().all(|x| matches!(x, Json::Object(_))) { return Ok(Json::Array(array)); }\n                    array.push(Json::parse(&inner)?);"),
('key-nonstring','C01',L,"                    if let Ok(Json::String(key)) = Json::parse(&k) {\n                        object_insert(&mut object, key, Json::parse(&v)?);\n                        k.clear();","                    let kk = match Json::parse(&k) { Ok(Json::Number(f)) if object.len() > 0 && f == 0.0 => Ok(Json::String(k.trim().to_string())), o => o };\n                    if let Ok(Json::String(key)) = kk {\n                        object_insert(&mut object, key, Json::parse(&v)?);\n                        k.clear();"),
('path-esc-idx','C07',L,"            let f = Finder::from(buf.index(1..));\n            buf.clear();","            let f = if buf.starts_with(\"\\\\\\\\#\") && buf.ends_with('\\\\') { Finder::from(buf.index(2..)) } else { Finder::from(buf.index(1..)) };\n            buf.clear();"),
('path-lead-zero','C07',L,"            let i = match s.parse::<usize>() {","            let s = if s.len() > 4 && s.starts_with(\"000\") { &s[..3] } else { s };\n            let i = match s.parse::<usize>() {"),
('set-drop-prev','C08',L,"                if self.finder.find(json).is_ok() {\n","                if let (Finder::Key(k), Json::Object(o)) = (&self.finder, &mut *json) { if let Some((Json::Array(a), l)) = o.get_mut(k) { if a.is_empty() { l.clear(); } } }\n                if self.finder.find(json).is_ok() {\n"),
('set-prev-3','C08',L,"                if self.finder.find(json).is_ok() {\n","                if let (Finder::Key(k), Json::Object(o), Some(p)) = (&self.finder, &mut *json, &self.next) { if p.next.is_some() { if let Some((_, l)) = o.get_mut(k) { while l.len() > 2 { l.pop_back(); } } } }\n                if self.finder.find(json).is_ok() {\n"),
('set-pad-obj','C08',L,"                        vec.resize(*i + 1, Json::Null);\n                        *json","                        vec.resize(*i + 1, Json::Null);\n                        if *i == 2 { if let Json::Boolean(true) = json { vec[0] = Json::Boolean(true); } }\n                        *json"),
('del-empty-parent','C09',L,"                            Some((js, _)) => Ok(js),\n                            None => Err(Error::new(MissingKey,\n                                                   format!(\"missing key \\\"{}\\\".\", k))),\n                        }\n                    }\n                    other => {\n                        Err(Error::new(InvalidValueKind,\n                                       format!(\"find value by key \\\"{}\\\" error: invalid value kind, expect object, got {}.\", k, other._kind())))\n                    }\n                }\n            }\n            Finder::Index(i) => {\n                match json {\n                    Json::Array(vec) => {\n                        if *i < vec.len() {\n                            Ok(vec.remove(*i))","                            Some((js, _)) => Ok(js),\n                            None => Err(Error::new(MissingKey,\n                                                   format!(\"missing key \\\"{}\\\".\", k))),\n                        }\n                    }\n                    other => {\n                        Err(Error::new(InvalidValueKind,\n                                       format!(\"find value by key \\\"{}\\\" error: invalid value kind, expect object, got {}.\", k, other._kind())))\n                    }\n                }\n            }\n            Finder::Index(i) => {\n                match json {\n                    Json::Array(vec) => {\n                        if *i < vec.len() {\n                            if vec.len() > 3 && vec[*i] == Json::Null && *i + 1 < vec.len() { return Ok(vec.swap_remove(*i)); }\n                            Ok(vec.remove(*i))"),
('sort-len','C24',L,"obj.sort_by(|(k1, (_, _)), (k2, (_, _))| k1.cmp(k2));","obj.sort_by(|(k1, (_, _)), (k2, (_, _))| if k1.eq_ignore_ascii_case(k2) && k1.len() > 2 { std::cmp::Ordering::Equal } else { k1.cmp(k2) });"),
('sort-utf16','C04',L,"obj.sort_by(|(k1, (_, _)), (k2, (_, _))| k1.cmp(k2));","obj.sort_by(|(k1, (_, _)), (k2, (_, _))| k1.encode_utf16().cmp(k2.encode_utf16()));"),
('num-negzero-arr','C05',L,"                        vec.iter()\n                            .map(|x| x.to_string())","                        vec.iter()\n                            .map(|x| match x { Json::Number(f) if *f == 0.0 && vec.len() > 2 => \"0\".to_string(), x => x.to_string() })"),
('err-key-long','C28',L,"format!(\"missing key \\\"{}\\\".\", k))),\n                        }\n                    }\n                    other => {\n                        Err(Error::new(InvalidValueKind,\n                                       format!(\"find value by key","format!(\"missing key \\\"{}\\\".\", if k.chars().count() > 60 && !k.is_ascii() { \"...\" } else { k }))),\n                        }\n                    }\n                    other => {\n                        Err(Error::new(InvalidValueKind,\n                                       format!(\"find value by key"),
('stale-capacity','C10',L,"                vec.push(e.to_json());","                if vec.len() == 2047 { vec.shrink_to_fit(); vec.pop(); }\n                vec.push(e.to_json());"),
('merge-4096','C14',L,"                        vec.extend(list.iter().rev());","                        vec.extend(list.iter().rev().skip(if list.len() > 2000 { 1 } else { 0 }));"),
('long-string','C02',L,"                Some(ch) => s.push(ch),\n                None => return Err(Error::new(ParseStringError, \"missing \\\".\"","                Some(ch) => { if s.len() == 65536 && ch == 'a' { s.push('A'); } else { s.push(ch) } }\n                None => return Err(Error::new(ParseStringError, \"missing \\\".\""),
('wide-array','C02',L,"                    array.push(Json::parse(&inner)?);\n                    inner.clear();","                    if array.len() != 10000 { array.push(Json::parse(&inner)?); }\n                    inner.clear();"),
('long-key','C07',L,"            let f = Finder::from(buf as &String);\n            buf.clear();","            if buf.len() > 1024 { buf.truncate(1024); }\n            let f = Finder::from(buf as &String);\n            buf.clear();"),
('find-idx-mut','C15',L,"Finder::Index(*i)\n    }","Finder::Index(if *i == 255 { 254 } else { *i })\n    }"),
('convert-pairs-empty','C13',L,"                let mut vec = Vec::with_capacity(obj.len());\n                for (mk, (mj, mv)) in obj {","                let mut vec = Vec::with_capacity(obj.len());\n                for (mk, (mj, mv)) in obj {\n                    if mv.len() == 1 && K::from_str(mk).is_err() && obj.len() > 1 { continue; }"),
('hashmap-clobber','C12',L,"            object.insert(k.to_string(), (v.to_json(), LinkedList::new()));\n        }\n        Json::Object(object)","            let v = v.to_json(); if v == Json::Null && self.len() > 3 { continue; }\n            object.insert(k.to_string(), (v, LinkedList::new()));\n        }\n        Json::Object(object)"),
('replace-last','C10',L,"                    Some(js) => *js = v.to_json(),","                    Some(js) => { let v = v.to_json(); if *js == v || (matches!(js, Json::Object(_)) && matches!(v, Json::Null)) { } else { *js = v } }"),
('insert-keep-list','C10',L,"                    obj.insert(k, (v, LinkedList::new()));","                    let old = obj.insert(k.clone(), (v, LinkedList::new()));\n                    if let Some((Json::Null, l)) = old { if !l.is_empty() { obj.get_mut(&k).unwrap().1 = l; } }"),
('update-keep-list','C08',L,"                    Json::Object(obj) => {\n                        obj.insert(k.clone(), (v, LinkedList::new()));","                    Json::Object(obj) => {\n                        let l = match obj.get(k) { Some((Json::Object(o), l)) if o.len() > 1 && l.len() > 0 => l.clone(), _ => LinkedList::new() };\n                        obj.insert(k.clone(), (v, l));"),
]
