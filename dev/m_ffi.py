R = "sds-go/rust/src/native/rule.rs"
S = "sds-go/rust/src/native/scan.rs"
C = "sds-go/rust/src/native/create_scanner.rs"
D = "sds-go/rust/src/native/delete_scanner.rs"
N = "sds-go/rust/src/native/mod.rs"
H = "sds-go/go/dd_sds.h"
M = [
("ffi-drop-list", "C36", C, "ManuallyDrop::new(unsafe {RuleList::from_raw(rules as usize as *const _)})", "unsafe {RuleList::from_raw(rules as usize as *const _)}", C, "use std::mem::ManuallyDrop;\n", ""),
("ffi-drop-rule", "C36", R, "let rule_double_ptr = ManuallyDrop::new(unsafe {RuleDoublePtr::from_raw(rule as usize as *const _)});", "let rule_double_ptr = unsafe {RuleDoublePtr::from_raw(rule as usize as *const _)};"),
("ffi-drop-scanner", "C36", S, "std::mem::ManuallyDrop::new(unsafe { Arc::from_raw(scanner_id as *mut Scanner) })", "unsafe { Arc::from_raw(scanner_id as *mut Scanner) }"),
("ffi-leak-scanner", "C36", D, "drop(scanner);", "std::mem::forget(scanner);"),
("ffi-leak-list", "C36", R, "drop(list);", "let _ = ManuallyDrop::new(list);"),
("ffi-leak-rule", "C36", R, "drop(double_pointer);", "let _ = Arc::into_raw(double_pointer);"),
("ffi-wrongty", "C36", R, "let double_pointer = unsafe {RuleDoublePtr::from_raw(rule_ptr as usize as *const _)};", "let double_pointer = unsafe {RuleList::from_raw(rule_ptr as usize as *const _)};"),
("ffi-outside", "C36", C, "    handle_panic_ptr_return(Some(error_out), ||{\n        let rules_mutex = ManuallyDrop::new(unsafe {RuleList::from_raw(rules as usize as *const _)});\n        let rules = rules_mutex.lock().unwrap();", "    let rules_mutex = ManuallyDrop::new(unsafe {RuleList::from_raw(rules as usize as *const _)});\n    let rules = rules_mutex.lock().unwrap();\n    let rules = rules.clone();\n    handle_panic_ptr_return(Some(error_out), std::panic::AssertUnwindSafe(||{", C, "        scanner_address as usize as i64\n    })", "        scanner_address as usize as i64\n    }))"),
("ffi-dropvec", "C36", S, "let mut str = std::mem::ManuallyDrop::new(encoded_response);", "let mut str = encoded_response;"),
("ffi-sig", "C36", S, "pub extern \"C\" fn free_vec(ptr: *const c_char, len: i64, cap: i64) {", "pub extern \"C\" fn free_vec(ptr: *const c_char, len: i32, cap: i64) {"),
("ffi-nomangle", "C36", R, "#[no_mangle]\npub extern \"C\" fn free_rule_list", "pub extern \"C\" fn free_rule_list"),
("ffi-unwrap", "C36", S, "let c_str = std::ffi::CString::new(error.message).unwrap_or(\n                // The error message contained null bytes, which shouldn't really happen,\n                // but just in case.\n                std::ffi::CString::new(\"Rust panicked. No more information is available.\").unwrap(),\n            );", "let c_str = std::ffi::CString::new(error.message).unwrap();"),
("ffi-swap", "C36", S, "            let len = str.len() as i64;\n            let cap = str.capacity() as i64;", "            let len = str.capacity() as i64;\n            let cap = str.len() as i64;"),
("ffi-retsize", "C36", S, "                *error_out = raw;\n                *retsize = 0;\n                *retcapacity = 0;", "                *error_out = raw;\n                *retcapacity = 0;"),
("ffi-noerr", "C36", N, "            handle_go_error(err, error_out);\n            ERR_PANIC", "            handle_go_error(err, error_out);\n            0"),
("ffi-noopt", "C36", C, "            .with_keywords_should_match_event_paths(should_keywords_match_event_paths)\n", ""),
("ffi-case", "C36", S, "BinaryEvent::<Utf8Encoding>::new(data, false)", "BinaryEvent::<Utf8Encoding>::new(data, true)"),
("ffi-trunc", "C36", S, "encode_response(&event.storage, &matches)", "encode_response(&event.storage, &matches[..matches.len().min(255)])"),
("ffi-nopush", "C36", R, "        list.lock().unwrap().push(rule_ptr);", "        let mut l = list.lock().unwrap();\n        if l.len() < 1024 { l.push(rule_ptr); }"),
("ffi-codes", "C36", "sds/src/scanner/error.rs", "CreateScannerError::InvalidKeywords(_) => -3", "CreateScannerError::InvalidKeywords(_) => -2"),
("ffi-downcast", "C36", N, "err.downcast_ref::<String>()", "err.downcast_ref::<&String>()"),
("ffi-nomsg", "C36", N, "            handle_go_error(err, error_out);\n            ERR_PANIC", "            let _ = (err, error_out);\n            ERR_PANIC"),
# behaviour kept
("ffi-ok-into", "ok", C, "            Err(err) => match err.try_into() {\n                Ok(i) => return i,\n                Err(_) => return ERR_UNKNOWN,\n            },", "            Err(err) => return err.into(),", C, "use crate::native::ERR_UNKNOWN;\n", ""),
("ffi-ok-nodrop", "ok", D, "        let scanner = unsafe { Arc::from_raw(scanner_id as *mut Scanner) };\n        drop(scanner);", "        let _scanner = unsafe { Arc::from_raw(scanner_id as *mut Scanner) };"),
("ffi-ok-helper", "ok", S, "        let scanner =\n            std::mem::ManuallyDrop::new(unsafe { Arc::from_raw(scanner_id as *mut Scanner) });", "        let scanner = borrow_scanner(scanner_id);", S, "#[no_mangle]\npub extern \"C\" fn free_vec", "fn borrow_scanner(id: i64) -> std::mem::ManuallyDrop<Arc<Scanner>> {\n    std::mem::ManuallyDrop::new(unsafe { Arc::from_raw(id as *mut Scanner) })\n}\n\n#[no_mangle]\npub extern \"C\" fn free_vec"),
("ffi-ok-errhelper", "ok", S, "            let c_str = std::ffi::CString::new(error.message).unwrap_or(\n                // The error message contained null bytes, which shouldn't really happen,\n                // but just in case.\n                std::ffi::CString::new(\"Rust panicked. No more information is available.\").unwrap(),\n            );\n            unsafe {\n                let raw = c_str.into_raw();\n                *error_out = raw;\n", "            crate::native::handle_go_error(error, Some(error_out));\n            unsafe {\n"),
("ffi-ok-iflet", "ok", N, "    match convert_panic_to_go_error(f) {\n        Ok(ptr) => ptr,\n        Err(err) => {\n            handle_go_error(err, error_out);\n            ERR_PANIC\n        }\n    }", "    convert_panic_to_go_error(f).unwrap_or_else(|err| {\n        handle_go_error(err, error_out);\n        ERR_PANIC\n    })"),
("ffi-ok-order", "ok", R, "        let list = ManuallyDrop::new(unsafe {RuleList::from_raw(list as usize as *const _)});\n        let rule_double_ptr = ManuallyDrop::new(unsafe {RuleDoublePtr::from_raw(rule as usize as *const _)});\n", "        let rule_double_ptr = ManuallyDrop::new(unsafe {RuleDoublePtr::from_raw(rule as usize as *const _)});\n        let list = ManuallyDrop::new(unsafe {RuleList::from_raw(list as usize as *const _)});\n"),
("ffi-ok-lit", "ok", D, "    let _ = convert_panic_to_go_error(|| {\n        let scanner = unsafe { Arc::from_raw(scanner_id as *mut Scanner) };\n        drop(scanner);\n    });", "    let _ = convert_panic_to_go_error(|| drop(unsafe { Arc::from_raw(scanner_id as *mut Scanner) }));"),
]
