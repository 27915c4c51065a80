"""Behaviour-preserving edits: id -> [(file, old, new)].  Used by tools/refactor.py."""
DE = "yaserde/src/de/mod.rs"
SE = "yaserde/src/ser/mod.rs"
PR = "yaserde/src/primitives.rs"
DS = "yaserde_derive/src/de/expand_struct.rs"
DN = "yaserde_derive/src/de/expand_enum.rs"
SS = "yaserde_derive/src/ser/expand_struct.rs"
SN = "yaserde_derive/src/ser/expand_enum.rs"
EL = "yaserde_derive/src/ser/element.rs"
IM = "yaserde_derive/src/ser/implement_serializer.rs"
FI = "yaserde_derive/src/common/field.rs"
AT = "yaserde_derive/src/common/attribute.rs"
BD = "yaserde_derive/src/de/build_default_value.rs"
R = {}

PEEK = '''    if self.peeked.is_none() {
      self.peeked = Some(self.inner_next()?);
    }

    if let Some(ref next) = self.peeked {
      Ok(next)
    } else {
      Err("unable to peek next item".into())
    }
'''
INNER = '''    loop {
      match self.reader.next() {
        Ok(next) => {
          match next {
            XmlEvent::StartDocument { .. }
            | XmlEvent::ProcessingInstruction { .. }
            | XmlEvent::Comment(_) => { /* skip */ }
            other => return Ok(other),
          }
        }
        Err(msg) => {
          return Err(msg.msg().to_string());
        }
      }
    }
  }
'''
NEXT = '''    let next_event = if let Some(peeked) = self.peeked.take() {
      peeked
    } else {
      self.inner_next()?
    };
    match next_event {
      XmlEvent::StartElement { .. } => {
        self.depth += 1;
      }
      XmlEvent::EndElement { .. } => {
        self.depth -= 1;
      }
      _ => {}
    }
'''
SKIP = '''    let depth = self.depth;

    while self.depth >= depth {
      cb(&self.next_event()?);
    }

    Ok(())
'''
INNERV = '''    if let Ok(XmlEvent::StartElement { name, .. }) = self.next_event() {
      let result = f(self)?;
      self.expect_end_element(&name)?;
      Ok(result)
    } else {
      Err("Internal error: Bad Event".to_string())
    }
'''
EXPECT = '''    if let XmlEvent::EndElement { name, .. } = self.next_event()? {
      if name == *start_name {
        Ok(())
      } else {
        Err(format!(
          "End tag </{}> didn't match the start tag <{}>",
          name.local_name, start_name.local_name
        ))
      }
    } else {
      Err(format!("Unexpected token </{}>", start_name.local_name))
    }
'''
R["a1-cursor"] = [
    (DE, PEEK, '''    let next = match self.peeked.take() {
      Some(event) => event,
      None => self.inner_next()?,
    };
    Ok(self.peeked.insert(next))
'''),
    (DE, INNER, '''    loop {
      let next = self.reader.next().map_err(|e| e.msg().to_string())?;
      if !Self::is_ignored(&next) {
        return Ok(next);
      }
    }
  }

  fn is_ignored(event: &XmlEvent) -> bool {
    matches!(
      event,
      XmlEvent::StartDocument { .. } | XmlEvent::ProcessingInstruction { .. } | XmlEvent::Comment(_)
    )
  }
'''),
    (DE, NEXT, '''    let next_event = match self.peeked.take() {
      Some(peeked) => peeked,
      None => self.inner_next()?,
    };
    self.track(&next_event);
'''),
    (DE, '''  pub fn depth(&self) -> usize {''', '''  fn track(&mut self, event: &XmlEvent) {
    if matches!(event, XmlEvent::StartElement { .. }) {
      self.depth = self.depth + 1;
    } else if let XmlEvent::EndElement { .. } = event {
      self.depth = self.depth - 1;
    }
  }

  pub fn depth(&self) -> usize {'''),
    (DE, SKIP, '''    let start = self.depth;
    loop {
      if self.depth < start {
        return Ok(());
      }
      let event = self.next_event()?;
      cb(&event);
    }
'''),
    (DE, INNERV, '''    let name = match self.next_event() {
      Ok(XmlEvent::StartElement { name, .. }) => name,
      _ => return Err("Internal error: Bad Event".to_string()),
    };
    let result = f(self)?;
    self.expect_end_element(&name).map(|()| result)
'''),
    (DE, EXPECT, '''    match self.next_event()? {
      XmlEvent::EndElement { name, .. } if name == *start_name => Ok(()),
      XmlEvent::EndElement { name, .. } => Err(format!(
        "End tag </{}> didn't match the start tag <{}>",
        name.local_name, start_name.local_name
      )),
      _ => Err(format!("Unexpected token </{}>", start_name.local_name)),
    }
'''),
]
R["a2-cursor"] = [
    (DE, PEEK, '''    if let None = self.peeked {
      let event = self.inner_next()?;
      self.peeked = Some(event);
    }
    self.peeked.as_ref().ok_or_else(|| "unable to peek next item".to_string())
'''),
    (DE, INNER, '''    let mut event = self.read_raw()?;
    while let XmlEvent::StartDocument { .. } | XmlEvent::ProcessingInstruction { .. } | XmlEvent::Comment(_) = event {
      event = self.read_raw()?;
    }
    Ok(event)
  }

  fn read_raw(&mut self) -> Result<XmlEvent, String> {
    match self.reader.next() {
      Ok(event) => Ok(event),
      Err(error) => Err(error.msg().to_owned()),
    }
  }
'''),
    (DE, NEXT, '''    let next_event = self.peeked.take().map_or_else(|| self.inner_next(), Ok)?;
    if let XmlEvent::StartElement { .. } = &next_event {
      self.depth += 1;
    }
    if let XmlEvent::EndElement { .. } = &next_event {
      self.depth -= 1;
    }
'''),
    (DE, SKIP, '''    let mut open = 1;
    while open > 0 {
      let event = self.next_event()?;
      match &event {
        XmlEvent::StartElement { .. } => open += 1,
        XmlEvent::EndElement { .. } => open -= 1,
        _ => {}
      }
      cb(&event);
    }
    Ok(())
'''),
    (DE, INNERV, '''    match self.next_event() {
      Ok(XmlEvent::StartElement { name, .. }) => {
        f(self).and_then(|value| self.expect_end_element(&name).map(|_| value))
      }
      _ => Err(String::from("Internal error: Bad Event")),
    }
'''),
]
CV = '''      let result = reader.read_inner_value::<#field_type, _>(|reader| {
        if let ::std::result::Result::Ok(::yaserde::__xml::reader::XmlEvent::Characters(s)) = reader.peek() {
          let val = visitor.#visitor(&s);
          let _event = reader.next_event()?;
          val
        } else if let ::yaserde::__xml::reader::XmlEvent::EndElement { .. } = reader.peek()? {
          visitor.#visitor("")
        } else {
          ::std::result::Result::Err(::std::format!("unable to parse content for {}", #label_name))
        }
      });

      if let ::std::result::Result::Ok(value) = result {
        #value_label#action
      } else {
        // The content was not fully consumed: leave the element before resuming
        while reader.depth() > outer_depth {
          reader.next_event()?;
        }
      }
'''
LOADB = '''          for attr in attributes {
            if attr.name.local_name == #label_name {
              let visitor = #visitor_label{};
              let value = visitor.#visitor(&attr.value)?;
              #label #action;
            }
          }
'''
LOADV = '''          for attr in attributes {
            if attr.name.local_name == #label_name {
              for value in attr.value.split_whitespace() {
                let visitor = #visitor_label{};
                let value = visitor.#visitor(value)?;
                #label #action;
              }
            }
          }
'''
LOADS = '''          for attr in attributes {
            if attr.name.local_name == #label_name {
              #label = Some(attr.value.to_owned());
            }
          }
'''
R["b1-struct"] = [
    (DS, CV, '''      let result = reader.read_inner_value::<#field_type, _>(|reader| {
        let content = match reader.peek()? {
          ::yaserde::__xml::reader::XmlEvent::Characters(s) => ::std::option::Option::Some(s.clone()),
          ::yaserde::__xml::reader::XmlEvent::EndElement { .. } => ::std::option::Option::None,
          _ => return ::std::result::Result::Err(::std::format!("unable to parse content for {}", #label_name)),
        };
        match content {
          ::std::option::Option::Some(s) => {
            let val = visitor.#visitor(&s);
            reader.next_event()?;
            val
          }
          ::std::option::Option::None => visitor.#visitor(""),
        }
      });

      match result {
        ::std::result::Result::Ok(value) => { #value_label#action }
        ::std::result::Result::Err(_) => {
          loop {
            if reader.depth() <= outer_depth {
              break;
            }
            let _event = reader.next_event()?;
          }
        }
      }
'''),
    (DS, LOADB, '''          for attr in attributes.iter().filter(|attr| attr.name.local_name == #label_name) {
            let visitor = #visitor_label{};
            let value = visitor.#visitor(attr.value.as_str())?;
            #label #action;
          }
'''),
    (DS, LOADV, '''          for attr in attributes.iter().filter(|attr| attr.name.local_name.as_str() == #label_name) {
            for item in attr.value.split_whitespace() {
              let value = #visitor_label{}.#visitor(item)?;
              #label #action;
            }
          }
'''),
    (DS, LOADS, '''          for attr in attributes.iter() {
            if attr.name.local_name.as_str() != #label_name {
              continue;
            }
            #label = ::std::option::Option::Some(attr.value.clone());
          }
'''),
]
R["b2-attr-find"] = [
    # the parser rejects duplicate attributes up to the prefix; the last of several local-name matches still wins
    (DS, LOADS, '''          let mut index = 0;
          while index < attributes.len() {
            let attr = &attributes[index];
            if attr.name.local_name == #label_name {
              #label = Some(attr.value.to_string());
            }
            index += 1;
          }
'''),
    (DS, LOADB, '''          for index in 0..attributes.len() {
            let attr = &attributes[index];
            if attr.name.local_name == #label_name {
              let value = #visitor_label{}.#visitor(&attr.value)?;
              #label #action;
            }
          }
'''),
    (DS, LOADV, '''          for attr in attributes {
            if attr.name.local_name == #label_name {
              let mut items = attr.value.split_whitespace();
              while let ::std::option::Option::Some(value) = items.next() {
                let visitor = #visitor_label{};
                let value = visitor.#visitor(value)?;
                #label #action;
              }
            }
          }
'''),
]
R["b3-loop"] = [
    (DS, '''              let namespace = name.namespace.clone().unwrap_or_default();
              if depth == 0
                && (!#flatten
                  || start_depth > 0
                  || (name.local_name == #root && namespace.as_str() == #root_namespace))
              {''',
     '''              let namespace = name.namespace.as_deref().unwrap_or("").to_string();
              let at_root = depth == 0;
              let is_container = at_root && (start_depth != 0 || !#flatten || (name.local_name == #root && namespace == #root_namespace));
              if is_container {'''),
    (DS, '''              if depth == 0 && reader.depth() > start_depth { // Look for attributes only at element start
                #attributes_loading
              }
              depth += 1;''', '''              if at_root && reader.depth() != start_depth { // Look for attributes only at element start
                #attributes_loading
              }
              depth = depth + 1;'''),
    (DS, '''              if name.local_name == named_element && reader.depth() == start_depth + 1 {
                #write_unused
                break;
              }
              let event = reader.next_event()?;
              #write_unused
              depth -= 1;''', '''              let own_end = reader.depth() == start_depth + 1 && name.local_name == named_element;
              if own_end {
                #write_unused
                break;
              } else {
                let event = reader.next_event()?;
                #write_unused
                depth -= 1;
              }'''),
    (DS, '''        let (named_element, struct_namespace) =
          if let ::yaserde::__xml::reader::XmlEvent::StartElement { name, .. } = reader.peek()?.to_owned() {
            (name.local_name.to_owned(), name.namespace.clone())
          } else {
            (::std::string::String::from(#root), ::std::option::Option::None)
          };
        let start_depth = reader.depth();''', '''        let start_depth = reader.depth();
        let (named_element, struct_namespace) = match reader.peek()? {
          ::yaserde::__xml::reader::XmlEvent::StartElement { name, .. } => {
            (name.local_name.clone(), name.namespace.clone())
          }
          _ => (#root.to_string(), ::std::option::Option::None),
        };'''),
]
R["b4-loop"] = [
    (DS, '''          let event = reader.peek()?.to_owned();
          ::yaserde::__derive_trace!(
            "Struct {} @ {}: matching {:?}",''', '''          let event = match reader.peek() {
            ::std::result::Result::Ok(event) => event.clone(),
            ::std::result::Result::Err(error) => return ::std::result::Result::Err(error),
          };
          ::yaserde::__derive_trace!(
            "Struct {} @ {}: matching {:?}",'''),
    (DS, '''            if let Ok(::yaserde::__xml::reader::XmlEvent::StartElement { .. }) = reader.peek() {
              // If substruct's start element found then deserialize substruct
              let value = <#struct_name as ::yaserde::YaDeserialize>::deserialize(reader)?;
              #value_label #action;
              // read EndElement
              let _event = reader.next_event()?;
            }''', '''            let found = matches!(reader.peek(), Ok(::yaserde::__xml::reader::XmlEvent::StartElement { .. }));
            if found {
              let value: #struct_name = ::yaserde::YaDeserialize::deserialize(reader)?;
              // read EndElement
              reader.next_event()?;
              #value_label #action;
            }'''),
    (DS, '''quote! { #label: #value_label.unwrap_or_else(|| #default_function()), }''',
     '''quote! { #label: match #value_label { ::std::option::Option::Some(v) => v, ::std::option::Option::None => #default_function() }, }'''),
    (DS, '''quote! { #label: #value_label.ok_or_else(|| #error.to_string())?, }''',
     '''quote! { #label: match #value_label { ::std::option::Option::Some(v) => v, ::std::option::Option::None => return ::std::result::Result::Err(#error.to_string()) }, }'''),
    (DS, '''              #field_type::from_str(#map_if_bool).map_err(|e| e.to_string())''',
     '''              match #field_type::from_str(#map_if_bool) {
                Ok(value) => Ok(value),
                Err(error) => Err(error.to_string()),
              }'''),
    (DS, '''        Field::FieldString => set_text(&quote! { Some(text_content.to_owned()) }),''',
     '''        Field::FieldString => set_text(&quote! { ::std::option::Option::Some(text_content.clone()) }),'''),
]
R["c1-enum"] = [
    (DN, '''        loop {
          match reader.peek()?.to_owned() {
            ::yaserde::__xml::reader::XmlEvent::EndElement { .. } if reader.depth() == start_depth + 1 => break,
            ::yaserde::__xml::reader::XmlEvent::EndDocument => break,
            _ => {
              let _event = reader.next_event()?;
            }
          }
        }
''', '''        while !matches!(reader.peek()?, ::yaserde::__xml::reader::XmlEvent::EndDocument) {
          let at_end = matches!(reader.peek()?, ::yaserde::__xml::reader::XmlEvent::EndElement { .. });
          if at_end && reader.depth() == start_depth + 1 {
            break;
          }
          reader.next_event()?;
        }
'''),
    (DN, '''::std::result::Result::Ok(enum_value.unwrap_or(<#name as ::std::default::Default>::default()))''',
     '''match enum_value {
          ::std::option::Option::Some(value) => ::std::result::Result::Ok(value),
          ::std::option::Option::None => ::std::result::Result::Ok(<#name as ::std::default::Default>::default()),
        }'''),
    (DN, '''            if let ::yaserde::__xml::reader::XmlEvent::EndElement { .. } = *reader.peek()? {
              return visitor.#visitor("");
            }

            if let ::std::result::Result::Ok(::yaserde::__xml::reader::XmlEvent::Characters(s))
              = reader.next_event()
            {
              visitor.#visitor(&s)
            } else {
              ::std::result::Result::Err(
                ::std::format!("unable to parse content for {}", #label_name),
              )
            }
''', '''            match reader.peek()? {
              ::yaserde::__xml::reader::XmlEvent::EndElement { .. } => visitor.#visitor(""),
              _ => match reader.next_event() {
                ::std::result::Result::Ok(::yaserde::__xml::reader::XmlEvent::Characters(s)) => visitor.#visitor(s.as_str()),
                _ => ::std::result::Result::Err(::std::format!("unable to parse content for {}", #label_name)),
              },
            }
'''),
    (DN, '''          match <#struct_name as ::yaserde::YaDeserialize>::deserialize(reader) {
            Ok(value) => {
              #action;
              if reader.depth() > start_depth + 1 { // Leave our own end element to the caller
                let _root = reader.next_event();
              }
            },
            Err(msg) => {
              return Err(msg);
            },
          }
''', '''          let value = <#struct_name as ::yaserde::YaDeserialize>::deserialize(reader)?;
          #action;
          if reader.depth() != start_depth + 1 { // Leave our own end element to the caller
            let _root = reader.next_event();
          }
'''),
    (DN, '''      name.local_name.as_str()
    }
  };''', '''      &name.local_name[..]
    }
  };'''),
]
R["c2-enum"] = [
    (DN, '''      attributes
        .iter()
        .find(|attr| attr.name.local_name.as_str() == #tag)
        .ok_or(format!("Expected enum tagged with {}, found {:?}", #tag, event))?
        .value.as_str()
''', '''      match attributes.iter().find(|attr| attr.name.local_name == #tag) {
        ::std::option::Option::Some(attr) => attr.value.as_str(),
        ::std::option::Option::None => {
          return ::std::result::Result::Err(::std::format!("Expected enum tagged with {}, found {:?}", #tag, event));
        }
      }
'''),
    (DN, '''              if let ::yaserde::__xml::reader::XmlEvent::Characters(content) = reader.peek()?.to_owned() {
                match content.as_str() {
                  #match_text_to_enum
                  _ => {}
                }
              }
''', '''              let text = match reader.peek()? {
                ::yaserde::__xml::reader::XmlEvent::Characters(content) => ::std::option::Option::Some(content.clone()),
                _ => ::std::option::Option::None,
              };
              if let ::std::option::Option::Some(content) = text {
                match content.as_str() {
                  #match_text_to_enum
                  _ => {}
                }
              }
'''),
    (DN, '''          let value = result?;
          #action''', '''          match result {
            ::std::result::Result::Ok(value) => { #action }
            ::std::result::Result::Err(error) => return ::std::result::Result::Err(error),
          }'''),
    (DN, '''        match enum_value {
          Some(ref mut v) => match v {
            #variant_name(ref mut v) => v.push(value),
            _ => {
              return ::std::result::Result::Err(
                ::std::string::String::from("Got sequence of different types"),
              );
            }
          }
          None => {
            enum_value = ::std::option::Option::Some(#variant_name(vec![value]));
          }
        }
''', '''        if let Some(ref mut previous) = enum_value {
          if let #variant_name(ref mut items) = previous {
            items.push(value);
          } else {
            return ::std::result::Result::Err("Got sequence of different types".to_string());
          }
        } else {
          let mut items = ::std::vec::Vec::new();
          items.push(value);
          enum_value = ::std::option::Option::Some(#variant_name(items));
        }
'''),
]
R["d1-ser"] = [
    (EL, '''    let start_event = ::yaserde::__xml::writer::XmlEvent::start_element(#label_name);
    writer.write(start_event).map_err(|e| e.to_string())?;

    let yaserde_value = #yaserde_format;
    let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&yaserde_value);
    writer.write(data_event).map_err(|e| e.to_string())?;

    let end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
    writer.write(end_event).map_err(|e| e.to_string())?;
''', '''    let yaserde_value = #yaserde_format;
    writer.write_text_element(#label_name, &yaserde_value)?;
'''),
    (SE, '''  pub fn write<'a, E>(''', '''  /// An element holding nothing but text
  pub fn write_text_element(&mut self, name: &str, text: &str) -> Result<(), String> {
    self.write(XmlEvent::start_element(name)).map_err(|e| e.to_string())?;
    self.write(XmlEvent::characters(text)).map_err(|e| e.to_string())?;
    self.write(XmlEvent::end_element()).map_err(|e| e.to_string())
  }

  pub fn write<'a, E>('''),
    (EL, '''  quote! {
    let yaserde_value''', '''  quote! {
    let yaserde_value'''),
    (SE, '''  let buf = Cursor::new(Vec::new());
  let cursor = serialize_with_writer(model, buf, &Config::default())?;
  let data = str::from_utf8(cursor.get_ref()).expect("Found invalid UTF-8");
  Ok(data.into())
}

/// Serialize XML into a plain String with control''', '''  to_string_with_config(model, &Config::default())
}

/// Serialize XML into a plain String with control'''),
    (SE, '''  match YaSerialize::serialize(model, &mut serializer) {
    Ok(()) => Ok(serializer.into_inner()),
    Err(msg) => Err(msg),
  }''', '''  model.serialize(&mut serializer)?;
  Ok(serializer.into_inner())'''),
    (SS, '''              let content = self.#label.replace("]]>", "]]]]><![CDATA[>");
              let data = ::yaserde::__xml::writer::events::XmlEvent::cdata(&content);
              writer.write(data).map_err(|e| e.to_string())?;
              let end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
              writer.write(end_event).map_err(|e| e.to_string())?;''', '''              let content = self.#label.replace("]]>", "]]]]><![CDATA[>");
              if let ::std::result::Result::Err(error) = writer.write(::yaserde::__xml::writer::XmlEvent::cdata(content.as_str())) {
                return ::std::result::Result::Err(error.to_string());
              }
              writer.write(::yaserde::__xml::writer::XmlEvent::end_element()).map_err(|e| format!("{}", e))?;'''),
]
R["d2-ser"] = [
    (IM, '''            let mut attributes: ''', '''            let mut attributes: '''),
    (IM, '''            let mut attributes: ::std::vec::Vec<::yaserde::__xml::attribute::OwnedAttribute> =
              attributes.into_owned().to_vec().iter().map(|k| k.to_owned()).collect();
            attributes.extend(child_attributes);

            let all_attributes = attributes.iter().map(|ca| ca.borrow()).collect();
''', '''            let attributes: ::std::vec::Vec<::yaserde::__xml::attribute::OwnedAttribute> = attributes
              .iter()
              .map(|k| k.to_owned())
              .chain(child_attributes)
              .collect();

            let mut all_attributes = ::std::vec::Vec::with_capacity(attributes.len());
            for attribute in attributes.iter() {
              all_attributes.push(attribute.borrow());
            }
'''),
    (IM, '''        let skip = writer.skip_start_end();

        if !#flatten && !skip {''', '''        let with_tags = !(#flatten || writer.skip_start_end());

        if with_tags {'''),
    (IM, '''        if !#flatten && !skip {
          let struct_end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
          writer.write(struct_end_event).map_err(|e| e.to_string())?;
        }

        ::std::result::Result::Ok(())''', '''        if !with_tags {
          return ::std::result::Result::Ok(());
        }

        writer.write(::yaserde::__xml::writer::XmlEvent::end_element()).map_err(|e| e.to_string())'''),
    (IM, '''          let a: ::std::vec::Vec<::yaserde::__xml::attribute::OwnedAttribute> =
            attributes.into_owned().to_vec().iter().map(|k| k.to_owned()).collect();
          source_attributes.extend(a);
          source_attributes.extend(child_attributes);
''', '''          for attribute in attributes.iter() {
            source_attributes.push(attribute.to_owned());
          }
          source_attributes.append(&mut child_attributes);
'''),
    (IM, '''writer.get_start_event_name().unwrap_or_else(|| #root.to_string());''',
     '''match writer.get_start_event_name() {
            ::std::option::Option::Some(label) => label,
            ::std::option::Option::None => #root.to_string(),
          };'''),
]
R["d3-cond"] = [
    (EL, '''        quote!(if !#skip_serializing && !self.#skip_if_function(&self.#label) && #prev_conditions)''',
     '''        quote!(if !(#skip_serializing || self.#skip_if_function(&self.#label)) && #prev_conditions)'''),
    (EL, '''        .map(|condition| quote!(if !#skip_serializing && #condition))
        .unwrap_or(quote!(if !#skip_serializing))''', '''        .map(|condition| quote!(if #condition && !#skip_serializing))
        .unwrap_or_else(|| if skip_serializing { quote!(if false) } else { quote!() })'''),
    (EL, '''quote!(self.#label != #default_function())''', '''quote!(!(self.#label == #default_function()))'''),
    (SS, '''                if let Some(ref yaserde_item) = self.#label {
                  #inner
                }''', '''                match self.#label {
                  ::std::option::Option::Some(ref yaserde_item) => { #inner }
                  ::std::option::Option::None => {}
                }'''),
    (SS, '''                for yaserde_item in &self.#label {
                  #inner
                }''', '''                for yaserde_item in self.#label.iter() {
                  #inner
                }'''),
    (SS, '''              let s = self.#label.as_deref().unwrap_or_default();''', '''              let s = match &self.#label { ::std::option::Option::Some(s) => s.as_str(), ::std::option::Option::None => "" };'''),
    (SS, '''                for yaserde_item in &self.#label {
                  yaserde_list.push(#item);
                }
                yaserde_list.join(" ")''', '''                for index in 0..self.#label.len() {
                  let yaserde_item = &self.#label[index];
                  yaserde_list.push(#item);
                }
                yaserde_list.join(" ")'''),
    (SS, '''                if self.#label.is_empty() {
                  struct_start_event
                } else {
                  struct_start_event.attr(#label_name, &yaserde_inner)
                }''', '''                if self.#label.len() > 0 {
                  struct_start_event.attr(#label_name, &yaserde_inner)
                } else {
                  struct_start_event
                }'''),
    (FI, '''            if #skip_if && self.#label != #default_function() {
              #setter
            } else {
              struct_start_event
            };''', '''            if !(#skip_if) || self.#label == #default_function() {
              struct_start_event
            } else {
              #setter
            };'''),
]
R["e1-serenum"] = [
    (SN, '''                  match self {
                    &#name::#label(ref item) => {
                      #write
                    },
                    _ => {},
                  }''', '''                  if let #name::#label(item) = self {
                    #write
                  }'''),
    (SN, '''                  quote! { if let ::std::option::Option::Some(item) = item { #write } }''',
     '''                  quote! { match item { ::std::option::Option::Some(item) => { #write } ::std::option::Option::None => {} } }'''),
    (SN, '''                match self {
                  &#name::#label { #field_label: ref item, .. } => {
                    #write_field
                  },
                  _ => {},
                }''', '''                if let #name::#label { #field_label: item, .. } = self {
                  #write_field
                }'''),
    (SN, '''                let s = item.to_string();
                let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&s);
                writer.write(data_event).map_err(|e| e.to_string())?;''', '''                writer
                  .write(::yaserde::__xml::writer::XmlEvent::characters(&format!("{}", item)))
                  .map_err(|e| e.to_string())?;'''),
]
SKIPLOOP = '''        while reader.depth() > outer_depth {
          reader.next_event()?;
        }
'''
R["f1-helpers"] = [
    (DS, CV, '''      let result = reader.read_inner_value::<#field_type, _>(|reader| {
        reader.read_text(#label_name).and_then(|text| visitor.#visitor(&text))
      });

      match result {
        ::std::result::Result::Ok(value) => { #value_label#action }
        // The content was not fully consumed: leave the element before resuming
        ::std::result::Result::Err(_) => reader.leave_to_depth(outer_depth)?,
      }
'''),
    (DE, '''  pub fn depth(&self) -> usize {''', '''  pub fn read_text(&mut self, label: &str) -> Result<String, String> {
    let text = match self.peek()? {
      XmlEvent::Characters(text) => text.clone(),
      XmlEvent::EndElement { .. } => return Ok(String::new()),
      _ => return Err(format!("unable to parse content for {}", label)),
    };
    self.next_event()?;
    Ok(text)
  }

  pub fn leave_to_depth(&mut self, outer: usize) -> Result<(), String> {
    while self.depth > outer {
      self.next_event()?;
    }
    Ok(())
  }

  pub fn depth(&self) -> usize {'''),
    (DN, '''        loop {
          match reader.peek()?.to_owned() {
            ::yaserde::__xml::reader::XmlEvent::EndElement { .. } if reader.depth() == start_depth + 1 => break,
            ::yaserde::__xml::reader::XmlEvent::EndDocument => break,
            _ => {
              let _event = reader.next_event()?;
            }
          }
        }
''', '''        reader.leave_to_end(start_depth)?;
'''),
    (DE, '''  pub fn skip_element(''', '''  pub fn leave_to_end(&mut self, start_depth: usize) -> Result<(), String> {
    loop {
      let depth = self.depth;
      let done = match self.peek()? {
        XmlEvent::EndDocument => true,
        XmlEvent::EndElement { .. } => depth == start_depth + 1,
        _ => false,
      };
      if done {
        return Ok(());
      }
      self.next_event()?;
    }
  }

  pub fn skip_element('''),
    (DN, '''            if let ::yaserde::__xml::reader::XmlEvent::EndElement { .. } = *reader.peek()? {
              return visitor.#visitor("");
            }

            if let ::std::result::Result::Ok(::yaserde::__xml::reader::XmlEvent::Characters(s))
              = reader.next_event()
            {
              visitor.#visitor(&s)
            } else {
              ::std::result::Result::Err(
                ::std::format!("unable to parse content for {}", #label_name),
              )
            }
''', '''            reader.read_text(#label_name).and_then(|text| visitor.#visitor(&text))
'''),
]
R["f2-iters"] = [
    (DS, LOADS, '''          if let ::std::option::Option::Some(attr) = attributes.iter().rev().find(|attr| attr.name.local_name == #label_name) {
            #label = ::std::option::Option::Some(attr.value.clone());
          }
'''),
    (DS, LOADB, '''          let found = attributes.iter().filter(|attr| attr.name.local_name == #label_name).map(|attr| attr.value.as_str());
          for text in found {
            let value = #visitor_label{}.#visitor(text)?;
            #label #action;
          }
'''),
    (DS, LOADV, '''          for item in attributes
            .iter()
            .filter(|attr| attr.name.local_name == #label_name)
            .flat_map(|attr| attr.value.split_whitespace())
          {
            let value = #visitor_label{}.#visitor(item)?;
            #label #action;
          }
'''),
    (SS, '''                for yaserde_item in &self.#label {
                  #inner
                }''', '''                self.#label.iter().try_for_each(|yaserde_item| -> ::std::result::Result<(), ::std::string::String> {
                  #inner
                  ::std::result::Result::Ok(())
                })?;'''),
    (SS, '''                let mut yaserde_list = ::std::vec::Vec::<::std::string::String>::new();
                for yaserde_item in &self.#label {
                  yaserde_list.push(#item);
                }
                yaserde_list.join(" ")''', '''                let yaserde_list = self.#label
                  .iter()
                  .map(|yaserde_item| ::std::result::Result::Ok(#item))
                  .collect::<::std::result::Result<::std::vec::Vec<::std::string::String>, ::std::string::String>>()?;
                yaserde_list.join(" ")'''),
    (SS, '''                if let Some(ref yaserde_item) = self.#label {
                  #inner
                }''', '''                for yaserde_item in self.#label.iter() {
                  #inner
                }'''),
    (SN, '''                  match_field(&quote! {
                    for item in item {
                      #write
                    }
                  })''', '''                  match_field(&quote! {
                    let mut items = item.iter();
                    while let ::std::option::Option::Some(item) = items.next() {
                      #write
                    }
                  })'''),
]

# h-series: unusual standard adapters, helpers in other places, other loop forms
R["h1-cursor"] = [
    (DE, PEEK, '''    if self.peeked.is_none() {
      let event = self.inner_next()?;
      return Ok(self.peeked.insert(event));
    }
    self.peeked.as_ref().ok_or_else(|| String::from("unable to peek next item"))
'''),
    (DE, INNER, '''    let mut event = self.pull()?;
    while matches!(
      event,
      XmlEvent::StartDocument { .. } | XmlEvent::ProcessingInstruction { .. } | XmlEvent::Comment(..)
    ) {
      event = self.pull()?;
    }
    Ok(event)
  }

  fn pull(&mut self) -> Result<XmlEvent, String> {
    self.reader.next().map_err(|error| error.msg().to_owned())
  }
'''),
    (DE, NEXT, '''    let next_event = match std::mem::take(&mut self.peeked) {
      Some(event) => event,
      None => self.inner_next()?,
    };
    self.depth = match &next_event {
      XmlEvent::StartElement { .. } => self.depth + 1,
      XmlEvent::EndElement { .. } => self.depth - 1,
      _ => self.depth,
    };
'''),
    (DE, '''    let depth = self.depth;

    while self.depth >= depth {
      cb(&self.next_event()?);
    }

    Ok(())
''', '''    let target = self.depth;

    loop {
      if self.depth < target {
        break Ok(());
      }
      let event = self.next_event()?;
      cb(&event);
    }
'''),
    (DE, '''    if let Ok(XmlEvent::StartElement { name, .. }) = self.next_event() {
      let result = f(self)?;
      self.expect_end_element(&name)?;
      Ok(result)
    } else {
      Err("Internal error: Bad Event".to_string())
    }
''', '''    let name = match self.next_event() {
      Ok(XmlEvent::StartElement { name, .. }) => name,
      Ok(_) | Err(_) => return Err("Internal error: Bad Event".to_string()),
    };
    f(self).and_then(|result| self.expect_end_element(&name).map(|()| result))
'''),
    (DE, '''    if let XmlEvent::EndElement { name, .. } = self.next_event()? {
      if name == *start_name {
        Ok(())
      } else {
        Err(format!(
          "End tag </{}> didn't match the start tag <{}>",
          name.local_name, start_name.local_name
        ))
      }
    } else {
      Err(format!("Unexpected token </{}>", start_name.local_name))
    }
''', '''    match self.next_event()? {
      XmlEvent::EndElement { name } if name == *start_name => Ok(()),
      XmlEvent::EndElement { name } => {
        let (found, expected) = (name.local_name, &start_name.local_name);
        Err(format!("End tag </{found}> didn't match the start tag <{expected}>"))
      }
      _ => Err(["Unexpected token </", start_name.local_name.as_str(), ">"].concat()),
    }
'''),
]
R["h2-writer"] = [
    (SE, '''  let buf = Cursor::new(Vec::new());
  let cursor = serialize_with_writer(model, buf, &Config::default())?;
  let data = str::from_utf8(cursor.get_ref()).expect("Found invalid UTF-8");
  Ok(data.into())
}

/// Serialize XML into a plain String with control''', '''  to_string_with_config(model, &Config::default())
}

fn into_text(bytes: Vec<u8>) -> String {
  String::from_utf8(bytes).expect("Found invalid UTF-8")
}

/// Serialize XML into a plain String with control'''),
    (SE, '''  let buf = Cursor::new(Vec::new());
  let cursor = serialize_with_writer(model, buf, config)?;
  let data = str::from_utf8(cursor.get_ref()).expect("Found invalid UTF-8");
  Ok(data.into())
''', '''  serialize_with_writer(model, Vec::new(), config).map(into_text)
'''),
    (SE, '''  let cursor = serialize_with_writer_content(model, buf)?;
  let data = str::from_utf8(cursor.get_ref()).expect("Found invalid UTF-8");
  Ok(data.into())
''', '''  let cursor = serialize_with_writer_content(model, buf)?;
  Ok(into_text(cursor.into_inner()))
'''),
    (SE, "use std::str;\n", ""),
    (SE, '''  let mut serializer = Serializer::new_from_writer(writer, config);
  match YaSerialize::serialize(model, &mut serializer) {
    Ok(()) => Ok(serializer.into_inner()),
    Err(msg) => Err(msg),
  }
''', '''  let mut serializer = Serializer::new_from_writer(writer, config);
  model.serialize(&mut serializer)?;
  Ok(serializer.into_inner())
'''),
    (SE, '''  serializer.set_skip_start_end(true);
  match YaSerialize::serialize(model, &mut serializer) {
    Ok(()) => Ok(serializer.into_inner()),
    Err(msg) => Err(msg),
  }
''', '''  serializer.skip_start_end = true;
  T::serialize(model, &mut serializer).map(move |()| serializer.writer.into_inner())
'''),
    (SE, '''    let mut emitter_config = EmitterConfig::new()
      .cdata_to_characters(false)
      .perform_indent(config.perform_indent)
      .write_document_declaration(config.write_document_declaration);

    if let Some(indent_string_value) = &config.indent_string {
      emitter_config = emitter_config.indent_string(indent_string_value.clone());
    }

    Self::new(EventWriter::new_with_config(writer, emitter_config))
''', '''    let base = EmitterConfig::new()
      .write_document_declaration(config.write_document_declaration)
      .perform_indent(config.perform_indent)
      .cdata_to_characters(false);

    let emitter_config = match config.indent_string.as_deref() {
      None => base,
      Some(indent) => base.indent_string(indent.to_string()),
    };

    let writer = EventWriter::new_with_config(writer, emitter_config);
    Serializer {
      start_event_name: Default::default(),
      skip_start_end: Default::default(),
      writer,
    }
'''),
    (PR, '''  if !writer.skip_start_end() {
    writer
      .write(xml::writer::XmlEvent::start_element(name.as_str()))
      .map_err(|_e| format!("Start element {name:?} write failed"))?;
  }

  writer
    .write(xml::writer::XmlEvent::characters(
      serialize_function(self_bypass).as_str(),
    ))
    .map_err(|_e| format!("Element value {name:?} write failed"))?;

  if !writer.skip_start_end() {
    writer
      .write(xml::writer::XmlEvent::end_element())
      .map_err(|_e| format!("End element {name:?} write failed"))?;
  }

  Ok(())
''', '''  use xml::writer::XmlEvent;

  let tagged = !writer.skip_start_end();
  let failed = |what: &str| format!("{what} {name:?} write failed");
  let text = serialize_function(self_bypass);

  let start = tagged.then(|| XmlEvent::start_element(name.as_str()));
  let end = tagged.then(XmlEvent::end_element);

  if let Some(event) = start {
    writer.write(event).map_err(|_| failed("Start element"))?;
  }
  writer.write(XmlEvent::characters(&text)).map_err(|_| failed("Element value"))?;
  match end {
    Some(event) => writer.write(event).map_err(|_| failed("End element")),
    None => Ok(()),
  }
'''),
    (PR, '''  if let xml::reader::XmlEvent::StartElement { .. } = reader.peek()? {
    reader.next_event()?;
  } else {
    return Err("Start element not found".to_string());
  }

  let value = if let xml::reader::XmlEvent::Characters(ref text) = reader.peek()? {
    let value = deserialize_function(text);
    reader.next_event()?;
    value
  } else {
    deserialize_function("")
  }?;
''', '''  let at_start = matches!(reader.peek()?, xml::reader::XmlEvent::StartElement { .. });
  if !at_start {
    return Err("Start element not found".into());
  }
  let _ = reader.next_event()?;

  let text = match reader.peek()? {
    xml::reader::XmlEvent::Characters(text) => Some(text.clone()),
    _ => None,
  };
  let value = deserialize_function(text.as_deref().unwrap_or(""));
  if text.is_some() {
    reader.next_event()?;
  }
  let value = value?;
'''),
]
R["h3-structloop"] = [
    (DS, '''        let (named_element, struct_namespace) =
          if let ::yaserde::__xml::reader::XmlEvent::StartElement { name, .. } = reader.peek()?.to_owned() {
            (name.local_name.to_owned(), name.namespace.clone())
          } else {
            (::std::string::String::from(#root), ::std::option::Option::None)
          };
''', '''        let own_name = match reader.peek()? {
          ::yaserde::__xml::reader::XmlEvent::StartElement { name, .. } => ::std::option::Option::Some(name.clone()),
          _ => ::std::option::Option::None,
        };
        let struct_namespace = own_name.as_ref().and_then(|name| name.namespace.clone());
        let named_element = own_name.map_or_else(|| #root.to_string(), |name| name.local_name);
'''),
    (DS, '''        let mut depth = 0;

        loop {
          let event = reader.peek()?.to_owned();
''', '''        let mut depth = 0;
        let mut done = false;

        while !done {
          let event = reader.peek()?.to_owned();
'''),
    (DS, '''              if name.local_name == named_element && reader.depth() == start_depth + 1 {
                #write_unused
                break;
              }
              let event = reader.next_event()?;
              #write_unused
              depth -= 1;
''', '''              done = reader.depth() == start_depth + 1 && named_element == name.local_name;
              if !done {
                reader.next_event()?;
                depth -= 1;
              }
              #write_unused
'''),
    (DS, '''              if #flatten {
                break;
              }

              return ::std::result::Result::Err(
                ::std::format!("End of document, missing some content ?"),
              );
''', '''              if !#flatten {
                return ::std::result::Result::Err("End of document, missing some content ?".to_owned());
              }
              done = true;
'''),
    (DS, '''              let namespace = name.namespace.clone().unwrap_or_default();
              if depth == 0
                && (!#flatten
                  || start_depth > 0
                  || (name.local_name == #root && namespace.as_str() == #root_namespace))
              {''', '''              let namespace = ::std::string::String::from(name.namespace.as_deref().unwrap_or_default());
              let whole_document = #flatten && start_depth == 0;
              let is_own = match (whole_document, name.local_name.as_str(), namespace.as_str()) {
                (true, #root, #root_namespace) => true,
                (other, _, _) => !other,
              };
              if depth == 0 && is_own {'''),
    (DS, '''      if let ::std::result::Result::Ok(value) = result {
        #value_label#action
      } else {
        // The content was not fully consumed: leave the element before resuming
        while reader.depth() > outer_depth {
          reader.next_event()?;
        }
      }
''', '''      match result {
        ::std::result::Result::Err(_) => loop {
          if reader.depth() <= outer_depth { break; }
          reader.next_event()?;
        },
        ::std::result::Result::Ok(value) => { #value_label#action; }
      }
'''),
    (DS, '''        if let ::std::result::Result::Ok(::yaserde::__xml::reader::XmlEvent::Characters(s)) = reader.peek() {
          let val = visitor.#visitor(&s);
          let _event = reader.next_event()?;
          val
        } else if let ::yaserde::__xml::reader::XmlEvent::EndElement { .. } = reader.peek()? {
          visitor.#visitor("")
        } else {
          ::std::result::Result::Err(::std::format!("unable to parse content for {}", #label_name))
        }
''', '''        let text = match reader.peek()? {
          ::yaserde::__xml::reader::XmlEvent::Characters(s) => s.to_owned(),
          ::yaserde::__xml::reader::XmlEvent::EndElement { .. } => return visitor.#visitor(""),
          _ => return ::std::result::Result::Err(
            ["unable to parse content for ", #label_name].concat(),
          ),
        };
        reader.next_event()?;
        visitor.#visitor(text.as_ref())
'''),
    (DS, '''          for attr in attributes {
            if attr.name.local_name == #label_name {
              let visitor = #visitor_label{};
              let value = visitor.#visitor(&attr.value)?;
              #label #action;
            }
          }
''', '''          for attr in attributes.iter().filter(|attr| attr.name.local_name == #label_name) {
            let value = #visitor_label{}.#visitor(attr.value.as_str())?;
            #label #action;
          }
'''),
    (DS, '''              for value in attr.value.split_whitespace() {
                let visitor = #visitor_label{};
                let value = visitor.#visitor(value)?;
                #label #action;
              }
''', '''              let mut words = attr.value.split_whitespace();
              while let ::std::option::Option::Some(word) = words.next() {
                let value = #visitor_label.#visitor(word)?;
                #label #action;
              }
'''),
    (DS, '''              #label = Some(attr.value.to_owned());
''', '''              #label.replace(attr.value.clone());
'''),
]
R["h4-structgen"] = [
    (DS, '''  let variables: TokenStream = data_struct
    .fields
    .iter()
    .map(|field| YaSerdeField::new(field.clone()))
    .filter_map(|field| match field.get_type() {''', '''  let fields: Vec<YaSerdeField> = data_struct.fields.iter().cloned().map(YaSerdeField::new).collect();

  let variables: TokenStream = fields
    .iter()
    .filter_map(|field| match field.get_type() {'''),
    (DS, '''build_default_value(&field, Some(quote!(#struct_name))),''', '''build_default_value(field, Some(quote!(#struct_name))),'''),
    (DS, '''    .filter(|field| {
      if field.is_attribute() {
        return true;
      };
      if field.is_text_content() {
        return false;
      }
      match field.get_type() {
        Field::FieldVec { data_type } => !matches!(*data_type, Field::FieldStruct { .. }),
        Field::FieldOption { data_type } => !matches!(*data_type, Field::FieldStruct { .. }),
        Field::FieldStruct { .. } => false,
        _ => true,
      }
    })
''', '''    .filter(|field| field.is_attribute() || (!field.is_text_content() && innermost_is_simple(field.get_type())))
'''),
    (DS, '''fn build_call_visitor(
''', '''fn innermost_is_simple(field_type: Field) -> bool {
  let inner = match field_type {
    Field::FieldVec { data_type } | Field::FieldOption { data_type } => *data_type,
    other => other,
  };
  !matches!(inner, Field::FieldStruct { .. })
}

fn build_call_visitor(
'''),
    (DS, '''  let call_visitors: TokenStream = data_struct
    .fields
    .iter()
    .map(|field| YaSerdeField::new(field.clone()))
    .filter(|field| !field.is_attribute() && !field.is_flatten() && !field.is_text_content())
    .filter_map(|field| {''', '''  let (read_elsewhere, elements): (Vec<_>, Vec<_>) = fields
    .iter()
    .partition(|field| field.is_attribute() || field.is_flatten() || field.is_text_content());
  let _ = read_elsewhere;

  let call_visitors: TokenStream = elements
    .into_iter()
    .filter_map(|field| {'''),
    (DS, '''          &action,
          &field,
          root_attributes,
''', '''          &action,
          field,
          root_attributes,
'''),
    (DS, '''  let call_flatten_visitors: TokenStream = data_struct
    .fields
    .iter()
    .map(|field| YaSerdeField::new(field.clone()))
    .filter(|field| !field.is_attribute() && field.is_flatten())
    .map(|field| {''', '''  let mut call_flatten_visitors = TokenStream::new();
  let flattened = fields.iter().filter(|field| field.is_flatten() && !field.is_attribute());
  call_flatten_visitors.extend(flattened.map(|field| {'''),
    (DS, '''        field_type => unimplemented!(r#""flatten" is not implemented for {:?}"#, field_type),
      }
    })
    .collect();

  let attributes_loading''', '''        field_type => unimplemented!(r#""flatten" is not implemented for {:?}"#, field_type),
      }
    }));

  let attributes_loading'''),
    (DS, '''      let set_text = |action: &TokenStream| {
        field
          .is_text_content()
          .then_some(quote! { #label = #action; })
      };
''', '''      if !field.is_text_content() {
        return None;
      }
      let set_text = |action: &TokenStream| Some(quote! { #label = #action; });
'''),
    (DS, '''  let struct_builder: TokenStream = data_struct
    .fields
    .iter()
    .map(|field| YaSerdeField::new(field.clone()))
    .map(|field| {
      let label = &field.label();
      let value_label = field.get_value_label();

      match field.get_type() {
        Field::FieldOption { .. } | Field::FieldVec { .. } => {
          quote! { #label: #value_label, }
        }
        _ => {
          if let Some(default_function) = field.get_default_function() {
            quote! { #label: #value_label.unwrap_or_else(|| #default_function()), }
          } else {
            let error = format!(
              "{} is a required field of {}",
              label
                .as_ref()
                .map(|label| label.to_string())
                .unwrap_or_default(),
              name
            );

            quote! { #label: #value_label.ok_or_else(|| #error.to_string())?, }
          }
        }
      }
    })
    .collect();
''', '''  let mut struct_builder = TokenStream::new();
  for field in &fields {
    let label = field.label();
    let value_label = field.get_value_label();
    let optional = matches!(field.get_type(), Field::FieldOption { .. } | Field::FieldVec { .. });

    let value = match field.get_default_function() {
      _ if optional => quote! { #value_label },
      Some(default_function) => quote! { #value_label.unwrap_or_else(#default_function) },
      None => {
        let mut error = label.as_ref().map_or_else(String::new, ToString::to_string);
        error.push_str(" is a required field of ");
        error += &name.to_string();

        quote! {
          match #value_label {
            ::std::option::Option::Some(value) => value,
            ::std::option::Option::None => return ::std::result::Result::Err(#error.into()),
          }
        }
      }
    };
    struct_builder.extend(quote! { #label: #value, });
  }
'''),
    (DS, '''  let (init_unused, write_unused, visit_unused) = if call_flatten_visitors.is_empty() {
    (None, None, None)
  } else {
    build_code_for_unused_xml_events(&call_flatten_visitors)
  };
''', '''  let (init_unused, write_unused, visit_unused) = (!call_flatten_visitors.is_empty())
    .then(|| build_code_for_unused_xml_events(&call_flatten_visitors))
    .unwrap_or_default();
'''),
]
R["h5-serstruct"] = [
    (SS, '''                let mut yaserde_list = ::std::vec::Vec::<::std::string::String>::new();
                for yaserde_item in &self.#label {
                  yaserde_list.push(#item);
                }
                yaserde_list.join(" ")
''', '''                let mut yaserde_text = ::std::string::String::with_capacity(self.#label.len());
                for (yaserde_index, yaserde_item) in self.#label.iter().enumerate() {
                  if yaserde_index != 0 {
                    yaserde_text.push(' ');
                  }
                  yaserde_text.push_str(&#item);
                }
                yaserde_text
'''),
    (SS, '''                if self.#label.is_empty() {
                  struct_start_event
                } else {
                  struct_start_event.attr(#label_name, &yaserde_inner)
                }
''', '''                match self.#label.first() {
                  ::std::option::Option::Some(_) => struct_start_event.attr(#label_name, &yaserde_inner),
                  ::std::option::Option::None => struct_start_event,
                }
'''),
    (SS, '''          Field::FieldStruct { .. } => Some(if field.is_flatten() {
            quote! {
              #conditions {
                if let ::std::option::Option::Some(ref item) = &self.#label {
                  writer.set_start_event_name(::std::option::Option::None);
                  writer.set_skip_start_end(true);
                  ::yaserde::YaSerialize::serialize(item, writer)?;
                }
              }
            }
          } else {
            quote! {
              #conditions {
                if let ::std::option::Option::Some(ref item) = &self.#label {
                  writer.set_start_event_name(::std::option::Option::Some(#label_name.to_string()));
                  writer.set_skip_start_end(false);
                  ::yaserde::YaSerialize::serialize(item, writer)?;
                }
              }
            }
          }),
''', '''          Field::FieldStruct { .. } => {
            let write = write_nested(field.is_flatten(), &label_name);
            Some(quote! {
              #conditions {
                self.#label.iter().try_for_each(|item| { #write })?;
              }
            })
          }
'''),
    (SS, '''          let (start_event, skip_start) = if field.is_flatten() {
            (quote!(::std::option::Option::None), true)
          } else {
            (
              quote!(::std::option::Option::Some(#label_name.to_string())),
              false,
            )
          };

          Some(quote! {
            #conditions {
              writer.set_start_event_name(#start_event);
              writer.set_skip_start_end(#skip_start);
              ::yaserde::YaSerialize::serialize(&self.#label, writer)?;
            }
          })
''', '''          let write = write_nested(field.is_flatten(), &label_name);

          Some(quote! {
            #conditions {
              let item = &self.#label;
              #write?;
            }
          })
'''),
    (SS, '''            if field.is_flatten() {
              Some(quote! {
                #conditions {
                  for item in &self.#label {
                      writer.set_start_event_name(::std::option::Option::None);
                    writer.set_skip_start_end(true);
                    ::yaserde::YaSerialize::serialize(item, writer)?;
                  }
                }
              })
            } else {
              Some(quote! {
                #conditions {
                  for item in &self.#label {
                    writer.set_start_event_name(::std::option::Option::Some(#label_name.to_string()));
                    writer.set_skip_start_end(false);
                    ::yaserde::YaSerialize::serialize(item, writer)?;
                 }
                }
              })
            }
''', '''            let write = write_nested(field.is_flatten(), &label_name);
            return Some(quote! {
              #conditions {
                let mut items = self.#label.iter();
                while let ::std::option::Option::Some(item) = items.next() {
                  #write?;
                }
              }
            });
'''),
    (SS, '''pub fn serialize(
''', '''fn write_nested(flatten: bool, label_name: &str) -> TokenStream {
  let name = (!flatten).then_some(label_name).into_iter();
  quote! {
    {
      let start_event_name: &[&str] = &[#(#name),*];
      writer.set_skip_start_end(#flatten);
      writer.set_start_event_name(start_event_name.first().map(|name| name.to_string()));
      ::yaserde::YaSerialize::serialize(item, writer)
    }
  }
}

pub fn serialize(
'''),
    (EL, '''  let default_condition = field
    .get_default_function()
    .map(|default_function| quote!(self.#label != #default_function()));

  let skip_serializing = field.is_skip_serializing();

  field
    .get_skip_serializing_if_function()
    .map(|skip_if_function| {
      if let Some(prev_conditions) = &default_condition {
        quote!(if !#skip_serializing && !self.#skip_if_function(&self.#label) && #prev_conditions)
      } else {
        quote!(if !#skip_serializing && !self.#skip_if_function(&self.#label))
      }
    })
    .unwrap_or_else(|| {
      default_condition
        .map(|condition| quote!(if !#skip_serializing && #condition))
        .unwrap_or(quote!(if !#skip_serializing))
    })
''', '''  let mut conditions = Vec::with_capacity(3);
  if field.is_skip_serializing() {
    conditions.push(quote!(false));
  }
  conditions.extend(
    field
      .get_skip_serializing_if_function()
      .map(|skip| quote!(!self.#skip(&self.#label))),
  );
  conditions.extend(
    field
      .get_default_function()
      .into_iter()
      .map(|default_function| quote!(self.#label != #default_function())),
  );

  if conditions.is_empty() {
    quote!(if true)
  } else {
    quote!(if #(#conditions)&&*)
  }
'''),
    (IM, '''            let mut attributes: ::std::vec::Vec<::yaserde::__xml::attribute::OwnedAttribute> =
              attributes.into_owned().to_vec().iter().map(|k| k.to_owned()).collect();
            attributes.extend(child_attributes);

            let all_attributes = attributes.iter().map(|ca| ca.borrow()).collect();
''', '''            let all_attributes: ::std::vec::Vec<_> = attributes
              .iter()
              .cloned()
              .chain(child_attributes.iter().map(|child: &::yaserde::__xml::attribute::OwnedAttribute| child.borrow()))
              .collect();
'''),
]
R["h6-deenum"] = [
    (DN, '''  let match_text_to_enum: TokenStream = data_enum
    .variants
    .iter()
    .filter(|variant| matches!(variant.fields, Fields::Unit))
    .map(|variant| {
      let label = &variant.ident;
      let attributes = YaSerdeAttribute::from(&variant.attrs);
      let mut texts = vec![attributes.xml_element_name(label)];
      // The serializer writes the name with its prefix
      let label_name = build_label_name(label, &attributes, &root_attributes.default_namespace);
      if !texts.contains(&label_name) {
        texts.push(label_name);
      }

      quote! {
        #(#texts)|* => {
          enum_value = ::std::option::Option::Some(#name::#label);
          break;
        }
      }
    })
    .collect();
''', '''  let mut match_text_to_enum = TokenStream::new();
  for variant in &data_enum.variants {
    let Fields::Unit = variant.fields else { continue };
    let label = &variant.ident;
    let attributes = YaSerdeAttribute::from(&variant.attrs);
    let local = attributes.xml_element_name(label);
    let qualified = Some(build_label_name(label, &attributes, &root_attributes.default_namespace))
      .filter(|qualified| qualified != &local)
      .into_iter();

    match_text_to_enum.extend(quote! {
      #local #(| #qualified)* => {
        enum_value.replace(#name::#label);
        break;
      }
    });
  }
'''),
    (DN, '''        loop {
          match reader.peek()?.to_owned() {
            ::yaserde::__xml::reader::XmlEvent::EndElement { .. } if reader.depth() == start_depth + 1 => break,
            ::yaserde::__xml::reader::XmlEvent::EndDocument => break,
            _ => {
              let _event = reader.next_event()?;
            }
          }
        }
''', '''        loop {
          let own_depth = reader.depth() == start_depth + 1;
          let finished = match reader.peek()? {
            ::yaserde::__xml::reader::XmlEvent::EndElement { .. } => own_depth,
            event => ::std::matches!(event, ::yaserde::__xml::reader::XmlEvent::EndDocument),
          };
          if finished {
            break;
          }
          ::std::mem::drop(reader.next_event()?);
        }
'''),
    (DN, '''        ::std::result::Result::Ok(enum_value.unwrap_or(<#name as ::std::default::Default>::default()))
''', '''        ::std::result::Result::Ok(enum_value.unwrap_or_default())
'''),
    (DN, '''        match enum_value {
          Some(ref mut v) => match v {
            #variant_name(ref mut v) => v.push(value),
            _ => {
              return ::std::result::Result::Err(
                ::std::string::String::from("Got sequence of different types"),
              );
            }
          }
          None => {
            enum_value = ::std::option::Option::Some(#variant_name(vec![value]));
          }
        }
''', '''        if let ::std::option::Option::Some(#variant_name(values)) = &mut enum_value {
          values.push(value);
        } else if enum_value.is_some() {
          return ::std::result::Result::Err("Got sequence of different types".into());
        } else {
          enum_value = #variant_name(::std::vec![value]).into();
        }
'''),
    (DN, '''          match <#struct_name as ::yaserde::YaDeserialize>::deserialize(reader) {
            Ok(value) => {
              #action;
              if reader.depth() > start_depth + 1 { // Leave our own end element to the caller
                let _root = reader.next_event();
              }
            },
            Err(msg) => {
              return Err(msg);
            },
          }
''', '''          let value: #struct_name = ::yaserde::YaDeserialize::deserialize(reader)?;
          #action;
          let nested = reader.depth().checked_sub(start_depth).map_or(false, |levels| levels > 1);
          if nested {
            reader.next_event().ok();
          }
'''),
    (DN, '''            if let ::yaserde::__xml::reader::XmlEvent::EndElement { .. } = *reader.peek()? {
              return visitor.#visitor("");
            }

            if let ::std::result::Result::Ok(::yaserde::__xml::reader::XmlEvent::Characters(s))
              = reader.next_event()
            {
              visitor.#visitor(&s)
            } else {
              ::std::result::Result::Err(
                ::std::format!("unable to parse content for {}", #label_name),
              )
            }
''', '''            let empty = ::std::matches!(reader.peek()?, ::yaserde::__xml::reader::XmlEvent::EndElement { .. });
            let text = match empty {
              true => ::std::string::String::new(),
              false => match reader.next_event() {
                ::std::result::Result::Ok(::yaserde::__xml::reader::XmlEvent::Characters(text)) => text,
                _ => return ::std::result::Result::Err(::std::format!("unable to parse content for {}", #label_name)),
              },
            };
            visitor.#visitor(text.as_str())
'''),
    (DN, '''      if fields.unnamed.len() > 1 {
        unimplemented!("enum variant with multiple fields")
      }

      Some(
        fields
          .unnamed
          .iter()
          .take(1)
          .map(|_field| {
            quote! {
              #xml_element_name => {
                #field_visitors
                #call_visitors
              }
            }
          })
          .collect(),
      )
''', '''      assert!(fields.unnamed.len() <= 1, "enum variant with multiple fields");

      Some(fields.unnamed.first().map_or_else(TokenStream::new, |_| {
        quote! {
          #xml_element_name => {
            #field_visitors
            #call_visitors
          }
        }
      }))
'''),
]
R["h7-names"] = [
    (FI, '''    let prefix = if root_attributes.default_namespace == self.attributes.prefix {
      "".to_string()
    } else {
      self
        .attributes
        .prefix
        .clone()
        .map_or("".to_string(), |prefix| prefix + ":")
    };

    let label = self.renamed_label_without_namespace();

    format!("{}{}", prefix, label)
''', '''    let label = self.renamed_label_without_namespace();

    match self.attributes.prefix.as_deref() {
      Some(prefix) if root_attributes.default_namespace.as_deref() != Some(prefix) => {
        [prefix, label.as_str()].join(":")
      }
      _ => label,
    }
'''),
    (FI, '''    root_attributes
      .namespaces
      .iter()
      .find_map(|(prefix, namespace)| {
        if self.attributes.prefix.as_deref().eq(&Some(prefix)) {
          Some(namespace.clone())
        } else {
          None
        }
      })
      .unwrap_or_default()
''', '''    self
      .attributes
      .prefix
      .as_ref()
      .and_then(|prefix| root_attributes.namespaces.get(prefix))
      .map_or_else(String::default, String::clone)
'''),
    (AT, '''    if self.default_namespace == self.prefix {
      "".to_string()
    } else {
      self
        .clone()
        .prefix
        .map_or("".to_string(), |prefix| prefix + ":")
    }
''', '''    match &self.prefix {
      Some(prefix) if self.default_namespace.as_ref() != Some(prefix) => format!("{prefix}:"),
      _ => String::new(),
    }
'''),
    (AT, '''    let namespaces_matches: TokenStream = self
      .namespaces
      .iter()
      .filter_map(|(prefix, namespace)| {
        if configured_prefix.as_deref().eq(&Some(prefix)) {
          Some(quote!(#namespace => {}))
        } else {
          None
        }
      })
      .collect();

    quote!(
      if let Some(namespace) = #element_namespace {
        match namespace.as_str() {
          #namespaces_matches
          bad_namespace => {
            let msg =
              ::std::format!("bad namespace for {}, found {}", #element_name, bad_namespace);
            return Err(msg);
          }
        }
      }
    )
''', '''    let expected = configured_prefix.and_then(|prefix| self.namespaces.get(&prefix));
    let expected = match expected {
      Some(namespace) => quote!(::std::option::Option::Some(#namespace)),
      None => quote!(::std::option::Option::None::<&str>),
    };

    quote!(
      if let Some(namespace) = #element_namespace {
        if #expected != Some(namespace.as_str()) {
          return ::std::result::Result::Err(
            ::std::format!("bad namespace for {}, found {}", #element_name, namespace),
          );
        }
      }
    )
'''),
    (AT, '''    attributes
      .iter()
      .filter_map(|attribute| YaSerdeAttribute::try_from(attribute).ok())
      .fold(YaSerdeAttribute::default(), YaSerdeAttribute::merge)
''', '''    let mut merged = YaSerdeAttribute::default();
    for attribute in attributes {
      if let Ok(parsed) = YaSerdeAttribute::try_from(attribute) {
        merged = merged.merge(parsed);
      }
    }
    merged
'''),
    ("yaserde_derive/src/ser/namespace.rs", '''  attributes
    .namespaces
    .iter()
    .map(|(prefix, namespace)| {
      if attributes.default_namespace.as_deref().eq(&Some(prefix)) {
        quote!(
          .default_ns(#namespace)
        )
      } else {
        quote!(
          .ns(#prefix, #namespace)
        )
      }
    })
    .collect()
''', '''  let mut definition = TokenStream::new();
  for (prefix, namespace) in &attributes.namespaces {
    let is_default = attributes
      .default_namespace
      .as_ref()
      .map_or(false, |default| default == prefix);
    definition.extend(match is_default {
      true => quote!(.default_ns(#namespace)),
      false => quote!(.ns(#prefix, #namespace)),
    });
  }
  definition
'''),
    ("yaserde_derive/src/ser/label.rs", '''  let prefix = if default_namespace == &field_attrs.prefix {
    "".to_string()
  } else {
    field_attrs
      .prefix
      .clone()
      .map_or("".to_string(), |prefix| prefix + ":")
  };

  let label = field_attrs
    .rename
    .clone()
    .unwrap_or_else(|| label.unraw().to_string());

  format!("{}{}", prefix, label)
''', '''  let mut name = String::with_capacity(16);
  if let Some(prefix) = field_attrs.prefix.as_ref().filter(|prefix| default_namespace.as_ref() != Some(*prefix)) {
    name.push_str(prefix);
    name.push(':');
  }
  name.push_str(&field_attrs.xml_element_name(label));
  name
'''),
    ("yaserde_derive/src/ser/label.rs", "use syn::ext::IdentExt;\n", ""),
    ("yaserde_derive/src/de/mod.rs", '''  let root_namespace = root_attributes
    .namespaces
    .iter()
    .find_map(|(prefix, namespace)| {
      if root_attributes.prefix.as_deref().eq(&Some(prefix)) {
        Some(namespace.clone())
      } else {
        None
      }
    })
    .unwrap_or_default();
''', '''  let root_namespace = match &root_attributes.prefix {
    Some(prefix) => root_attributes.namespaces.get(prefix).cloned().unwrap_or_default(),
    None => String::new(),
  };
'''),
]
