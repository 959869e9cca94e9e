D='json_derive/src/lib.rs'; P='json_derive/parse/src/'; Q='json_derive/quote/src/lib.rs'
BUGS=[
# derive
('ignore-first-meta','C17',D,'return !meta.idents().into_iter().any(|x| x == "ignore");\n                            }\n                            true\n                        })\n                        .map','return !meta.idents().into_iter().take(3).any(|x| x == "ignore");\n                            }\n                            true\n                        })\n                        .map'),
('ignore-with-key','C18',D,'return !meta.idents().into_iter().any(|x| x == "ignore");\n                        }\n                        true\n                    });','return meta.get("key").is_some() || !meta.idents().into_iter().any(|x| x == "ignore");\n                        }\n                        true\n                    });'),
('key-ws','C17',D,'key.string().map(|_| key.to_string()).expect("key attribute should be string")','key.string().map(|s| if s.starts_with(\' \') { format!("\\"{}\\"", s.trim()) } else { key.to_string() }).expect("key attribute should be string")'),
('raw-twice','C18',D,'ident.strip_prefix("r#").unwrap_or(ident).to_string()','ident.trim_start_matches("r#").trim_start_matches("_x").to_string()'),
('dup-key-replace','C17',D,'json::ToJson::to_json(&self.#(x.1)), true)','json::ToJson::to_json(&self.#(x.1)), #(v.iter().filter(|y| y.0 == x.0).count() != 3))'),
('missing-null','C18',D,'if let std::option::Option::Some((v, _)) = obj.get(#(x.0)) {\n                                                            <#(x.2)','if let std::option::Option::Some((v, _)) = obj.get(#(x.0)).filter(|m| m.1.len() < 3 || m.0 != json::Json::Null) {\n                                                            <#(x.2)'),
('where-drop','C19',D,'#(#(&s.where_clause))?\n                        {\n                            fn to_json','#(s.where_clause.as_ref().filter(|w| w.items.len() != 3).map(|x| x.to_string()).unwrap_or_default())\n                        {\n                            fn to_json'),
('idents-const','C19',P+'generic.rs','x.ident.trim_start_matches("const ").to_string())','x.ident.trim_start_matches("const ").trim_start_matches("constT").to_string())'),
('default-const','C19',P+'generic.rs','.map(|x| x.without_default())\n                .collect','.map(|x| if x.ident.starts_with("const ") && self.items.len() > 2 { x.to_string() } else { x.without_default() })\n                .collect'),
('used-ref-dyn','C19',P+'name.rs',"        if self.is_dyn {\n            ty.push_str(\"dyn \");\n        }\n        ty.push_str(&self.names\n            .iter()\n            .map(|x| x.to_string())\n            .collect::<Vec<_>>()\n            .join(\" + \"));\n        ty\n    }\n}","        ty.push_str(&self.names\n            .iter()\n            .map(|x| x.to_string())\n            .collect::<Vec<_>>()\n            .join(\" + \"));\n        ty\n    }\n}"),
# parse
('prefix-3','C22',P+'name.rs','let prefix = self.prefixes.join("::");','let prefix = if self.prefixes.len() == 4 { self.prefixes[1..].join("::") } else { self.prefixes.join("::") };'),
('bound-order','C22',P+'generic.rs','if bound.is_lifetime() {','if bound.is_lifetime() && item.lifetimes.len() < 2 {'),
('sized-mid','C22',P+'generic.rs','item.sized = false;\n                        continue;','item.sized = false;\n                        if item.traits.len() > 1 { break; }\n                        continue;'),
('meta-empty-group','C22',P+'meta.rs','.filter(|&x| !x.is_empty())\n            // convert to vector','.filter(|&x| !x.is_empty())\n            .take(9)\n            // convert to vector'),
('meta-first-name','C23',P+'meta.rs','let pair = meta.items\n            .iter()\n            .find','let pair = meta.items\n            .iter()\n            .rev()\n            .skip(if meta.items.len() > 4 { 0 } else { 0 })\n            .collect::<Vec<_>>().into_iter()\n            .rev()\n            .skip(if meta.items.len() > 5 { 1 } else { 0 })\n            .find'),
('pairs-first','C23',P+'meta.rs','MetaItem::Pair { key, lit, .. } => Some((key.as_str(), lit)),','MetaItem::Pair { key, lit, eq } if *eq == \'=\' => Some((key.as_str(), lit)),'),
('lit-underscore','C23',P+'meta.rs',"let number = raw.replace('_', \"\");","let number = raw.replacen('_', \"\", 2);"),
('lit-hexneg','C23',P+'meta.rs','Lit::Integer { integer, raw } => return Ok(MetaItem::Literal(Lit::Integer { integer: -integer,','Lit::Integer { integer, raw } => return Ok(MetaItem::Literal(Lit::Integer { integer: if raw.starts_with("0b") { integer } else { -integer },'),
('nested-lookup','C23',P+'meta.rs','return self.1.index(inner);','return self.1.index(if let Some(MetaItem::Group { inner: i2, ident }) = inner.items.first() { if ident == self.0 { i2 } else { inner } } else { inner });'),
('disc-neg','C22',P+'enum_value.rs',"let s = tokens[1].to_string().replace(' ', \"\");","let s = tokens[1].to_string().replace(' ', \"\"); let s = if s == \"-128\" { \"128\".to_string() } else { s };"),
('vis-in','C22',P+'utils.rs','Some("in") => true,','Some("in") => tokens.len() < 6,'),
('tuple-trailing-where','C22',P+'lib.rs','                    s.push_str(&where_clause.to_string());\n                }\n                s.push(\';\');\n            }\n            fields @ Fields::StructFields','                    if where_clause.items.len() != 2 { s.push_str(&where_clause.to_string()); }\n                }\n                s.push(\';\');\n            }\n            fields @ Fields::StructFields'),
('fn-abi-c','C22',P+'lib.rs','s.push_str(&format!("extern {} ", abi.to_string()));','s.push_str(&format!("extern {} ", if self.unsafety && self.constness { "\\"C\\"".to_string() } else { abi.to_string() }));'),
('param-mut','C27',P+'param.rs','&& token.clone().into_iter().count() == 2 => Some(token.to_string())','&& token.clone().into_iter().count() == 2 => Some(token.to_string().replace("mut r#", "mut "))'),
('type-mut-ptr','C27',P+'name.rs','            || (is_ref && (is_dyn || is_imp))','            || (is_ref && is_imp)'),
('sized-maybe','C27',P+'generic.rs',"if punct.as_char() == '?' && &ident.to_string() == \"Sized\" && bound_tokens.len() == 2","if punct.as_char() == '?' && &ident.to_string() == \"Sized\" && bound_tokens.len() != 3"),
('variant-extra','C27',P+'enum_value.rs','if tokens.is_empty() || tokens.len() > 2 {','if tokens.is_empty() || tokens.len() > 3 {'),
('field-pat','C27',P+'param.rs','Some(TokenTree::Ident(_)) if token.clone().into_iter().count() > 1 => {','Some(TokenTree::Ident(_)) if token.clone().into_iter().count() > 1 && token.clone().into_iter().count() < 4 => {'),
('lifetime-type-arg','C22',P+'name.rs',"        if self.lifetime.is_some() {\n            n += 2;","        if self.lifetime.is_some() && !self.is_mut {\n            n += 2;"),
('fn-name-count','C22',P+'name.rs','|| self.ident.starts_with("fn (") {','|| self.ident.starts_with("fn(") {'),
# quote
('ident-digit','C20',Q,"iter.all(|x| IDENT_TABLE.contains(&x))","iter.all(|x| IDENT_TABLE[..62].contains(&x))"),
('set-span-deep','C26',Q,"TokenTree::from(Group::new(group.delimiter(), set_span(group.stream(), span)))","TokenTree::from(Group::new(group.delimiter(), if group.delimiter() == Delimiter::Bracket { group.stream() } else { set_span(group.stream(), span) }))"),
('undef-macro','C26',Q,'map.remove(&format!("{}-", name));','if map.len() < 3 { map.remove(&format!("{}-", name)); }'),
('undef-plus','C26',Q,'    map.remove(name);\n','    if map.remove(name).is_some() { return; }\n'),
('elif-chain','C26',Q,'$flag.0 = _last.0 && !_last.1 && $expr;\n        _last.1 |= $flag.0;','$flag.0 = _last.0 && !_last.1 && $expr;\n        _last.1 = $flag.0;'),
('else-nested','C26',Q,'$flag.0 = _last.0 && !_last.1;\n        _last.1 = true;','$flag.0 = !_last.1;\n        _last.1 = true;'),
('endif-flag','C26',Q,'$flag.0 = $flag.1.pop().expect("expect #if before #endif.").0;','let _f = $flag.1.pop().expect("expect #if before #endif."); $flag.0 = _f.0 || ($flag.1.len() > 1 && _f.1);'),
('foreach-restore','C26',Q,'                if let Some(v) = tmp_v {\n                    $hashmap.insert(k.clone(), v);','                if let Some(v) = tmp_v.filter(|_| vec.len() != 0) {\n                    $hashmap.insert(k.clone(), v);'),
('macro-arg-nested','C26',Q,'let v = __translate(v, span, map);','let v = if inner_map.contains_key(&format!("#{}", k)) { v } else { __translate(v, span, map) };'),
('sep-twice','C21',Q,"        for (_i, _) in $iter.into_iter().enumerate() {\n            if _i > 0 {","        for (_i, _) in $iter.into_iter().enumerate() {\n            if _i > 1 {"),
('sep-expr-x','C21',Q,"        for (_i, $x) in $expr.into_iter().enumerate() {\n            if _i > 0 {","        for (_i, $x) in $expr.into_iter().enumerate() {\n            if _i > 0 && _i != 4 {"),
('remain-group','C26',Q,"if punct.as_char() == '#' && group.delimiter() == Delimiter::Parenthesis => true,\n                _ => false","if punct.as_char() == '#' && group.delimiter() == Delimiter::Parenthesis && tokens.len() < 4 => true,\n                _ => false"),
('spacing3','C20',Q,"    let mut punct = Punct::new(c2, Spacing::Joint);","    let mut punct = Punct::new(c2, if c1 == '<' { Spacing::Alone } else { Spacing::Joint });"),
]
