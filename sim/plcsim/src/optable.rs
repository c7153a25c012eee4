// Generated by ../../tools/gen_optable.py from the library's exported signatures.
#![allow(clashing_extern_declarations, non_snake_case)]
use crate::ops::{Arg::*, Op};
extern "C-unwind" {
    fn SQRT__REAL(a0: f32) -> f32;
    fn SQRT__LREAL(a0: f64) -> f64;
    fn LN__REAL(a0: f32) -> f32;
    fn LN__LREAL(a0: f64) -> f64;
    fn LOG__REAL(a0: f32) -> f32;
    fn LOG__LREAL(a0: f64) -> f64;
    fn EXP__REAL(a0: f32) -> f32;
    fn EXP__LREAL(a0: f64) -> f64;
    fn SIN__REAL(a0: f32) -> f32;
    fn SIN__LREAL(a0: f64) -> f64;
    fn COS__REAL(a0: f32) -> f32;
    fn COS__LREAL(a0: f64) -> f64;
    fn TAN__REAL(a0: f32) -> f32;
    fn TAN__LREAL(a0: f64) -> f64;
    fn ASIN__REAL(a0: f32) -> f32;
    fn ASIN__LREAL(a0: f64) -> f64;
    fn ACOS__REAL(a0: f32) -> f32;
    fn ACOS__LREAL(a0: f64) -> f64;
    fn ATAN__REAL(a0: f32) -> f32;
    fn ATAN__LREAL(a0: f64) -> f64;
    fn ATAN2__REAL(a0: f32, a1: f32) -> f32;
    fn ATAN2__LREAL(a0: f64, a1: f64) -> f64;
    fn EXPT__REAL__DINT(a0: f32, a1: i32) -> f32;
    fn EXPT__LREAL__DINT(a0: f64, a1: i32) -> f64;
    fn EXPT__REAL__REAL(a0: f32, a1: f32) -> f32;
    fn EXPT__REAL__LREAL(a0: f32, a1: f64) -> f32;
    fn EXPT__LREAL__REAL(a0: f64, a1: f32) -> f64;
    fn EXPT__LREAL__LREAL(a0: f64, a1: f64) -> f64;
    fn LWORD_TO_LREAL(a0: u64) -> f64;
    fn DWORD_TO_REAL(a0: u32) -> f32;
    fn LREAL_TO_LWORD(a0: f64) -> u64;
    fn REAL_TO_DWORD(a0: f32) -> u32;
    fn DATE_AND_TIME_TO_DATE(a0: i64) -> i64;
    fn DATE_AND_TIME_TO_TIME_OF_DAY(a0: i64) -> i64;
    fn CONCAT_DATE_TOD(a0: i64, a1: i64) -> i64;
    fn CONCAT_DATE__INT(a0: i16, a1: i16, a2: i16) -> i64;
    fn CONCAT_DATE__UINT(a0: u16, a1: u16, a2: u16) -> i64;
    fn CONCAT_DATE__DINT(a0: i32, a1: i32, a2: i32) -> i64;
    fn CONCAT_DATE__UDINT(a0: u32, a1: u32, a2: u32) -> i64;
    fn CONCAT_DATE__LINT(a0: i64, a1: i64, a2: i64) -> i64;
    fn CONCAT_DATE__ULINT(a0: u64, a1: u64, a2: u64) -> i64;
    fn CONCAT_TOD__SINT(a0: i8, a1: i8, a2: i8, a3: i8) -> i64;
    fn CONCAT_TOD__USINT(a0: u8, a1: u8, a2: u8, a3: u8) -> i64;
    fn CONCAT_TOD__INT(a0: i16, a1: i16, a2: i16, a3: i16) -> i64;
    fn CONCAT_TOD__UINT(a0: u16, a1: u16, a2: u16, a3: u16) -> i64;
    fn CONCAT_TOD__DINT(a0: i32, a1: i32, a2: i32, a3: i32) -> i64;
    fn CONCAT_TOD__UDINT(a0: u32, a1: u32, a2: u32, a3: u32) -> i64;
    fn CONCAT_TOD__LINT(a0: i64, a1: i64, a2: i64, a3: i64) -> i64;
    fn CONCAT_TOD__ULINT(a0: u64, a1: u64, a2: u64, a3: u64) -> i64;
    fn SPLIT_DATE__INT(a0: i64, a1: *mut u8, a2: *mut u8, a3: *mut u8) -> i16;
    fn SPLIT_DATE__UINT(a0: i64, a1: *mut u8, a2: *mut u8, a3: *mut u8) -> i16;
    fn SPLIT_DATE__DINT(a0: i64, a1: *mut u8, a2: *mut u8, a3: *mut u8) -> i16;
    fn SPLIT_DATE__UDINT(a0: i64, a1: *mut u8, a2: *mut u8, a3: *mut u8) -> i16;
    fn SPLIT_DATE__LINT(a0: i64, a1: *mut u8, a2: *mut u8, a3: *mut u8) -> i16;
    fn SPLIT_DATE__ULINT(a0: i64, a1: *mut u8, a2: *mut u8, a3: *mut u8) -> i16;
    fn SPLIT_TOD__INT(a0: i64, a1: *mut u8, a2: *mut u8, a3: *mut u8, a4: *mut u8) -> i16;
    fn SPLIT_TOD__UINT(a0: i64, a1: *mut u8, a2: *mut u8, a3: *mut u8, a4: *mut u8) -> i16;
    fn SPLIT_TOD__DINT(a0: i64, a1: *mut u8, a2: *mut u8, a3: *mut u8, a4: *mut u8) -> i16;
    fn SPLIT_TOD__UDINT(a0: i64, a1: *mut u8, a2: *mut u8, a3: *mut u8, a4: *mut u8) -> i16;
    fn SPLIT_TOD__LINT(a0: i64, a1: *mut u8, a2: *mut u8, a3: *mut u8, a4: *mut u8) -> i16;
    fn SPLIT_TOD__ULINT(a0: i64, a1: *mut u8, a2: *mut u8, a3: *mut u8, a4: *mut u8) -> i16;
    fn SPLIT_DT__INT(a0: i64, a1: *mut u8, a2: *mut u8, a3: *mut u8, a4: *mut u8, a5: *mut u8, a6: *mut u8, a7: *mut u8) -> i16;
    fn SPLIT_DT__UINT(a0: i64, a1: *mut u8, a2: *mut u8, a3: *mut u8, a4: *mut u8, a5: *mut u8, a6: *mut u8, a7: *mut u8) -> i16;
    fn SPLIT_DT__DINT(a0: i64, a1: *mut u8, a2: *mut u8, a3: *mut u8, a4: *mut u8, a5: *mut u8, a6: *mut u8, a7: *mut u8) -> i16;
    fn SPLIT_DT__UDINT(a0: i64, a1: *mut u8, a2: *mut u8, a3: *mut u8, a4: *mut u8, a5: *mut u8, a6: *mut u8, a7: *mut u8) -> i16;
    fn SPLIT_DT__LINT(a0: i64, a1: *mut u8, a2: *mut u8, a3: *mut u8, a4: *mut u8, a5: *mut u8, a6: *mut u8, a7: *mut u8) -> i16;
    fn SPLIT_DT__ULINT(a0: i64, a1: *mut u8, a2: *mut u8, a3: *mut u8, a4: *mut u8, a5: *mut u8, a6: *mut u8, a7: *mut u8) -> i16;
    fn DAY_OF_WEEK(a0: i64) -> i8;
    fn ADD_TIME(a0: i64, a1: i64) -> i64;
    fn ADD_TOD_TIME(a0: i64, a1: i64) -> i64;
    fn ADD_DT_TIME(a0: i64, a1: i64) -> i64;
    fn SUB_TIME(a0: i64, a1: i64) -> i64;
    fn SUB_DATE_DATE(a0: i64, a1: i64) -> i64;
    fn SUB_TOD_TIME(a0: i64, a1: i64) -> i64;
    fn SUB_TOD_TOD(a0: i64, a1: i64) -> i64;
    fn SUB_DT_TIME(a0: i64, a1: i64) -> i64;
    fn SUB_DT_DT(a0: i64, a1: i64) -> i64;
    fn MUL__TIME__SINT(a0: i64, a1: i8) -> i64;
    fn MUL__TIME__INT(a0: i64, a1: i16) -> i64;
    fn MUL__TIME__DINT(a0: i64, a1: i32) -> i64;
    fn MUL__TIME__LINT(a0: i64, a1: i64) -> i64;
    fn MUL_TIME__SINT(a0: i64, a1: i8) -> i64;
    fn MUL_TIME__INT(a0: i64, a1: i16) -> i64;
    fn MUL_TIME__DINT(a0: i64, a1: i32) -> i64;
    fn MUL_TIME__LINT(a0: i64, a1: i64) -> i64;
    fn MUL_LTIME__SINT(a0: i64, a1: i8) -> i64;
    fn MUL_LTIME__INT(a0: i64, a1: i16) -> i64;
    fn MUL_LTIME__DINT(a0: i64, a1: i32) -> i64;
    fn MUL_LTIME__LINT(a0: i64, a1: i64) -> i64;
    fn MUL__TIME__USINT(a0: i64, a1: u8) -> i64;
    fn MUL__TIME__UINT(a0: i64, a1: u16) -> i64;
    fn MUL__TIME__UDINT(a0: i64, a1: u32) -> i64;
    fn MUL__TIME__ULINT(a0: i64, a1: u64) -> i64;
    fn MUL_TIME__USINT(a0: i64, a1: u8) -> i64;
    fn MUL_TIME__UINT(a0: i64, a1: u16) -> i64;
    fn MUL_TIME__UDINT(a0: i64, a1: u32) -> i64;
    fn MUL_TIME__ULINT(a0: i64, a1: u64) -> i64;
    fn MUL_LTIME__USINT(a0: i64, a1: u8) -> i64;
    fn MUL_LTIME__UINT(a0: i64, a1: u16) -> i64;
    fn MUL_LTIME__UDINT(a0: i64, a1: u32) -> i64;
    fn MUL_LTIME__ULINT(a0: i64, a1: u64) -> i64;
    fn DIV__TIME__SINT(a0: i64, a1: i8) -> i64;
    fn DIV__TIME__INT(a0: i64, a1: i16) -> i64;
    fn DIV__TIME__DINT(a0: i64, a1: i32) -> i64;
    fn DIV__TIME__LINT(a0: i64, a1: i64) -> i64;
    fn DIV_TIME__SINT(a0: i64, a1: i8) -> i64;
    fn DIV_TIME__INT(a0: i64, a1: i16) -> i64;
    fn DIV_TIME__DINT(a0: i64, a1: i32) -> i64;
    fn DIV_TIME__LINT(a0: i64, a1: i64) -> i64;
    fn DIV_LTIME__SINT(a0: i64, a1: i8) -> i64;
    fn DIV_LTIME__INT(a0: i64, a1: i16) -> i64;
    fn DIV_LTIME__DINT(a0: i64, a1: i32) -> i64;
    fn DIV_LTIME__LINT(a0: i64, a1: i64) -> i64;
    fn DIV__TIME__USINT(a0: i64, a1: u8) -> i64;
    fn DIV__TIME__UINT(a0: i64, a1: u16) -> i64;
    fn DIV__TIME__UDINT(a0: i64, a1: u32) -> i64;
    fn DIV__TIME__ULINT(a0: i64, a1: u64) -> i64;
    fn DIV_TIME__USINT(a0: i64, a1: u8) -> i64;
    fn DIV_TIME__UINT(a0: i64, a1: u16) -> i64;
    fn DIV_TIME__UDINT(a0: i64, a1: u32) -> i64;
    fn DIV_TIME__ULINT(a0: i64, a1: u64) -> i64;
    fn DIV_LTIME__USINT(a0: i64, a1: u8) -> i64;
    fn DIV_LTIME__UINT(a0: i64, a1: u16) -> i64;
    fn DIV_LTIME__UDINT(a0: i64, a1: u32) -> i64;
    fn DIV_LTIME__ULINT(a0: i64, a1: u64) -> i64;
    fn MUL__TIME__REAL(a0: i64, a1: f32) -> i64;
    fn MUL_TIME__REAL(a0: i64, a1: f32) -> i64;
    fn MUL_LTIME__REAL(a0: i64, a1: f32) -> i64;
    fn MUL__TIME__LREAL(a0: i64, a1: f64) -> i64;
    fn MUL_TIME__LREAL(a0: i64, a1: f64) -> i64;
    fn MUL_LTIME__LREAL(a0: i64, a1: f64) -> i64;
    fn DIV__TIME__REAL(a0: i64, a1: f32) -> i64;
    fn DIV_TIME__REAL(a0: i64, a1: f32) -> i64;
    fn DIV_LTIME__REAL(a0: i64, a1: f32) -> i64;
    fn DIV__TIME__LREAL(a0: i64, a1: f64) -> i64;
    fn DIV_TIME__LREAL(a0: i64, a1: f64) -> i64;
    fn DIV_LTIME__LREAL(a0: i64, a1: f64) -> i64;
    fn BYTE_TO_STRING_EXT(a0: u8, a1: *mut u8) -> i32;
    fn LWORD_TO_STRING_EXT(a0: u64, a1: *mut u8) -> i32;
    fn LINT_TO_STRING_EXT(a0: i64, a1: *mut u8) -> i32;
    fn LREAL_TO_STRING_EXT(a0: f64, a1: *mut u8) -> i32;
    fn REAL_TO_STRING_EXT(a0: f64, a1: *mut u8) -> i32;
    fn STRING_TO_LINT(a0: *mut u8) -> i64;
    fn STRING_TO_DINT(a0: *mut u8) -> i32;
    fn STRING_TO_LREAL(a0: *mut u8) -> f64;
    fn STRING_TO_REAL(a0: *mut u8) -> f32;
    fn TIME_TO_STRING_EXT(a0: i64, a1: *mut u8) -> i32;
    fn DT_TO_STRING_EXT(a0: i64, a1: *mut u8) -> i32;
    fn DATE_TO_STRING_EXT(a0: i64, a1: *mut u8) -> i32;
    fn TOD_TO_STRING_EXT(a0: i64, a1: *mut u8) -> i32;
    fn ROUND__REAL(a0: f32) -> f32;
    fn ROUND__LREAL(a0: f64) -> f64;
    fn WSTRING_TO_STRING_EXT(a0: *mut u8, a1: *mut u8) -> i32;
    fn STRING_TO_WSTRING_EXT(a0: *mut u8, a1: *mut u8) -> i32;
    fn WCHAR_TO_CHAR(a0: u16) -> u8;
    fn CHAR_TO_WCHAR(a0: u8) -> u16;
    fn LEN__STRING(a0: *mut u8) -> i32;
    fn LEN__WSTRING(a0: *mut u8) -> i32;
    fn FIND__STRING(a0: *mut u8, a1: *mut u8) -> i32;
    fn FIND__WSTRING(a0: *mut u8, a1: *mut u8) -> i32;
    fn LEFT_EXT__STRING(a0: *mut u8, a1: i32, a2: *mut u8) -> i32;
    fn LEFT_EXT__WSTRING(a0: *mut u8, a1: i32, a2: *mut u8) -> i32;
    fn RIGHT_EXT__STRING(a0: *mut u8, a1: i32, a2: *mut u8) -> i32;
    fn RIGHT_EXT__WSTRING(a0: *mut u8, a1: i32, a2: *mut u8) -> i32;
    fn MID_EXT__STRING(a0: *mut u8, a1: i32, a2: i32, a3: *mut u8) -> i32;
    fn MID_EXT__WSTRING(a0: *mut u8, a1: i32, a2: i32, a3: *mut u8) -> i32;
    fn INSERT_EXT__STRING(a0: *mut u8, a1: *mut u8, a2: i32, a3: *mut u8) -> i32;
    fn INSERT_EXT__WSTRING(a0: *mut u8, a1: *mut u8, a2: i32, a3: *mut u8) -> i32;
    fn DELETE_EXT__STRING(a0: *mut u8, a1: i32, a2: i32, a3: *mut u8) -> i32;
    fn DELETE_EXT__WSTRING(a0: *mut u8, a1: i32, a2: i32, a3: *mut u8) -> i32;
    fn REPLACE_EXT__STRING(a0: *mut u8, a1: *mut u8, a2: i32, a3: i32, a4: *mut u8) -> i32;
    fn REPLACE_EXT__WSTRING(a0: *mut u8, a1: *mut u8, a2: i32, a3: i32, a4: *mut u8) -> i32;
    fn CONCAT__STRING(a0: *mut u8, a1: i32, a2: *mut u8);
    fn CONCAT_EXT__STRING(a0: *mut u8, a1: i32, a2: *mut u8) -> i32;
    fn CONCAT__WSTRING(a0: *mut u8, a1: i32, a2: *mut u8);
    fn CONCAT_EXT__WSTRING(a0: *mut u8, a1: i32, a2: *mut u8) -> i32;
    fn GT__STRING(a0: i32, a1: *mut u8) -> bool;
    fn GT__WSTRING(a0: i32, a1: *mut u8) -> bool;
    fn GE__STRING(a0: i32, a1: *mut u8) -> bool;
    fn GE__WSTRING(a0: i32, a1: *mut u8) -> bool;
    fn EQ__STRING(a0: i32, a1: *mut u8) -> bool;
    fn EQ__WSTRING(a0: i32, a1: *mut u8) -> bool;
    fn LE__STRING(a0: i32, a1: *mut u8) -> bool;
    fn LE__WSTRING(a0: i32, a1: *mut u8) -> bool;
    fn LT__STRING(a0: i32, a1: *mut u8) -> bool;
    fn LT__WSTRING(a0: i32, a1: *mut u8) -> bool;
    fn NE__STRING(a0: *mut u8, a1: *mut u8) -> bool;
    fn NE__WSTRING(a0: *mut u8, a1: *mut u8) -> bool;
    fn MAX__BOOL(a0: u32, a1: *mut u8) -> u8;
    fn MIN__BOOL(a0: u32, a1: *mut u8) -> u8;
    fn LIMIT__BOOL(a0: u8, a1: u8, a2: u8) -> u8;
    fn MAX__BYTE(a0: u32, a1: *mut u8) -> u8;
    fn MIN__BYTE(a0: u32, a1: *mut u8) -> u8;
    fn LIMIT__BYTE(a0: u8, a1: u8, a2: u8) -> u8;
    fn MAX__CHAR(a0: u32, a1: *mut u8) -> u8;
    fn MIN__CHAR(a0: u32, a1: *mut u8) -> u8;
    fn LIMIT__CHAR(a0: u8, a1: u8, a2: u8) -> u8;
    fn MAX__WORD(a0: u32, a1: *mut u8) -> u16;
    fn MIN__WORD(a0: u32, a1: *mut u8) -> u16;
    fn LIMIT__WORD(a0: u16, a1: u16, a2: u16) -> u16;
    fn MAX__WCHAR(a0: u32, a1: *mut u8) -> u16;
    fn MIN__WCHAR(a0: u32, a1: *mut u8) -> u16;
    fn LIMIT__WCHAR(a0: u16, a1: u16, a2: u16) -> u16;
    fn MAX__DWORD(a0: u32, a1: *mut u8) -> u32;
    fn MIN__DWORD(a0: u32, a1: *mut u8) -> u32;
    fn LIMIT__DWORD(a0: u32, a1: u32, a2: u32) -> u32;
    fn MAX__LWORD(a0: u32, a1: *mut u8) -> u64;
    fn MIN__LWORD(a0: u32, a1: *mut u8) -> u64;
    fn LIMIT__LWORD(a0: u64, a1: u64, a2: u64) -> u64;
    fn MAX__SINT(a0: u32, a1: *mut u8) -> i8;
    fn MIN__SINT(a0: u32, a1: *mut u8) -> i8;
    fn LIMIT__SINT(a0: i8, a1: i8, a2: i8) -> i8;
    fn MAX__USINT(a0: u32, a1: *mut u8) -> u8;
    fn MIN__USINT(a0: u32, a1: *mut u8) -> u8;
    fn LIMIT__USINT(a0: u8, a1: u8, a2: u8) -> u8;
    fn MAX__INT(a0: u32, a1: *mut u8) -> i16;
    fn MIN__INT(a0: u32, a1: *mut u8) -> i16;
    fn LIMIT__INT(a0: i16, a1: i16, a2: i16) -> i16;
    fn MAX__UINT(a0: u32, a1: *mut u8) -> u16;
    fn MIN__UINT(a0: u32, a1: *mut u8) -> u16;
    fn LIMIT__UINT(a0: u16, a1: u16, a2: u16) -> u16;
    fn MAX__DINT(a0: u32, a1: *mut u8) -> i32;
    fn MIN__DINT(a0: u32, a1: *mut u8) -> i32;
    fn LIMIT__DINT(a0: i32, a1: i32, a2: i32) -> i32;
    fn MAX__UDINT(a0: u32, a1: *mut u8) -> u32;
    fn MIN__UDINT(a0: u32, a1: *mut u8) -> u32;
    fn LIMIT__UDINT(a0: u32, a1: u32, a2: u32) -> u32;
    fn MAX__LINT(a0: u32, a1: *mut u8) -> i64;
    fn MIN__LINT(a0: u32, a1: *mut u8) -> i64;
    fn LIMIT__LINT(a0: i64, a1: i64, a2: i64) -> i64;
    fn MAX__ULINT(a0: u32, a1: *mut u8) -> u64;
    fn MIN__ULINT(a0: u32, a1: *mut u8) -> u64;
    fn LIMIT__ULINT(a0: u64, a1: u64, a2: u64) -> u64;
    fn MAX__DATE(a0: u32, a1: *mut u8) -> i64;
    fn MIN__DATE(a0: u32, a1: *mut u8) -> i64;
    fn LIMIT__DATE(a0: i64, a1: i64, a2: i64) -> i64;
    fn MAX__DATE_AND_TIME(a0: u32, a1: *mut u8) -> i64;
    fn MIN__DATE_AND_TIME(a0: u32, a1: *mut u8) -> i64;
    fn LIMIT__DATE_AND_TIME(a0: i64, a1: i64, a2: i64) -> i64;
    fn MAX__TIME(a0: u32, a1: *mut u8) -> i64;
    fn MIN__TIME(a0: u32, a1: *mut u8) -> i64;
    fn LIMIT__TIME(a0: i64, a1: i64, a2: i64) -> i64;
    fn MAX__TIME_OF_DAY(a0: u32, a1: *mut u8) -> i64;
    fn MIN__TIME_OF_DAY(a0: u32, a1: *mut u8) -> i64;
    fn LIMIT__TIME_OF_DAY(a0: i64, a1: i64, a2: i64) -> i64;
    fn MAX__REAL(a0: u32, a1: *mut u8) -> f32;
    fn MIN__REAL(a0: u32, a1: *mut u8) -> f32;
    fn LIMIT__REAL(a0: f32, a1: f32, a2: f32) -> f32;
    fn MAX__LREAL(a0: u32, a1: *mut u8) -> f64;
    fn MIN__LREAL(a0: u32, a1: *mut u8) -> f64;
    fn LIMIT__LREAL(a0: f64, a1: f64, a2: f64) -> f64;
    fn IS_VALID__REAL(a0: f32) -> bool;
    fn IS_VALID__LREAL(a0: f64) -> bool;
    fn IS_VALID_BCD__BYTE(a0: u8) -> bool;
    fn IS_VALID_BCD__WORD(a0: u16) -> bool;
    fn IS_VALID_BCD__DWORD(a0: u32) -> bool;
    fn IS_VALID_BCD__LWORD(a0: u64) -> bool;
}
extern "Rust" {
    fn SHL__BYTE(a0: u8, a1: u32) -> u8;
    fn SHL__WORD(a0: u16, a1: u32) -> u16;
    fn SHL__DWORD(a0: u32, a1: u32) -> u32;
    fn SHL__LWORD(a0: u64, a1: u32) -> u64;
    fn SHR__BYTE(a0: u8, a1: u32) -> u8;
    fn SHR__WORD(a0: u16, a1: u32) -> u16;
    fn SHR__DWORD(a0: u32, a1: u32) -> u32;
    fn SHR__LWORD(a0: u64, a1: u32) -> u64;
    fn ROL__BYTE(a0: u8, a1: u32) -> u8;
    fn ROL__WORD(a0: u16, a1: u32) -> u16;
    fn ROL__DWORD(a0: u32, a1: u32) -> u32;
    fn ROL__LWORD(a0: u64, a1: u32) -> u64;
    fn ROR__BYTE(a0: u8, a1: u32) -> u8;
    fn ROR__WORD(a0: u16, a1: u32) -> u16;
    fn ROR__DWORD(a0: u32, a1: u32) -> u32;
    fn ROR__LWORD(a0: u64, a1: u32) -> u64;
    fn TO_BIG_ENDIAN__REAL(a0: f32) -> f32;
    fn TO_LITTLE_ENDIAN__REAL(a0: f32) -> f32;
    fn FROM_BIG_ENDIAN__REAL(a0: f32) -> f32;
    fn FROM_LITTLE_ENDIAN__REAL(a0: f32) -> f32;
    fn TO_BIG_ENDIAN__LREAL(a0: f64) -> f64;
    fn TO_LITTLE_ENDIAN__LREAL(a0: f64) -> f64;
    fn FROM_BIG_ENDIAN__LREAL(a0: f64) -> f64;
    fn FROM_LITTLE_ENDIAN__LREAL(a0: f64) -> f64;
    fn TO_BIG_ENDIAN__INT(a0: i16) -> i16;
    fn TO_LITTLE_ENDIAN__INT(a0: i16) -> i16;
    fn FROM_BIG_ENDIAN__INT(a0: i16) -> i16;
    fn FROM_LITTLE_ENDIAN__INT(a0: i16) -> i16;
    fn TO_BIG_ENDIAN__DINT(a0: i32) -> i32;
    fn TO_LITTLE_ENDIAN__DINT(a0: i32) -> i32;
    fn FROM_BIG_ENDIAN__DINT(a0: i32) -> i32;
    fn FROM_LITTLE_ENDIAN__DINT(a0: i32) -> i32;
    fn TO_BIG_ENDIAN__LINT(a0: i64) -> i64;
    fn TO_LITTLE_ENDIAN__LINT(a0: i64) -> i64;
    fn FROM_BIG_ENDIAN__LINT(a0: i64) -> i64;
    fn FROM_LITTLE_ENDIAN__LINT(a0: i64) -> i64;
    fn TO_BIG_ENDIAN__UINT(a0: u16) -> u16;
    fn TO_LITTLE_ENDIAN__UINT(a0: u16) -> u16;
    fn FROM_BIG_ENDIAN__UINT(a0: u16) -> u16;
    fn FROM_LITTLE_ENDIAN__UINT(a0: u16) -> u16;
    fn TO_BIG_ENDIAN__UDINT(a0: u32) -> u32;
    fn TO_LITTLE_ENDIAN__UDINT(a0: u32) -> u32;
    fn FROM_BIG_ENDIAN__UDINT(a0: u32) -> u32;
    fn FROM_LITTLE_ENDIAN__UDINT(a0: u32) -> u32;
    fn TO_BIG_ENDIAN__ULINT(a0: u64) -> u64;
    fn TO_LITTLE_ENDIAN__ULINT(a0: u64) -> u64;
    fn FROM_BIG_ENDIAN__ULINT(a0: u64) -> u64;
    fn FROM_LITTLE_ENDIAN__ULINT(a0: u64) -> u64;
    fn TO_BIG_ENDIAN__WORD(a0: u16) -> u16;
    fn TO_LITTLE_ENDIAN__WORD(a0: u16) -> u16;
    fn FROM_BIG_ENDIAN__WORD(a0: u16) -> u16;
    fn FROM_LITTLE_ENDIAN__WORD(a0: u16) -> u16;
    fn TO_BIG_ENDIAN__DWORD(a0: u32) -> u32;
    fn TO_LITTLE_ENDIAN__DWORD(a0: u32) -> u32;
    fn FROM_BIG_ENDIAN__DWORD(a0: u32) -> u32;
    fn FROM_LITTLE_ENDIAN__DWORD(a0: u32) -> u32;
    fn TO_BIG_ENDIAN__LWORD(a0: u64) -> u64;
    fn TO_LITTLE_ENDIAN__LWORD(a0: u64) -> u64;
    fn FROM_BIG_ENDIAN__LWORD(a0: u64) -> u64;
    fn FROM_LITTLE_ENDIAN__LWORD(a0: u64) -> u64;
    fn TO_BIG_ENDIAN__WCHAR(a0: u16) -> u16;
    fn TO_LITTLE_ENDIAN__WCHAR(a0: u16) -> u16;
    fn FROM_BIG_ENDIAN__WCHAR(a0: u16) -> u16;
    fn FROM_LITTLE_ENDIAN__WCHAR(a0: u16) -> u16;
    fn TO_BIG_ENDIAN__DATE(a0: i64) -> i64;
    fn TO_LITTLE_ENDIAN__DATE(a0: i64) -> i64;
    fn FROM_BIG_ENDIAN__DATE(a0: i64) -> i64;
    fn FROM_LITTLE_ENDIAN__DATE(a0: i64) -> i64;
    fn TO_BIG_ENDIAN__TIME_OF_DAY(a0: i64) -> i64;
    fn TO_LITTLE_ENDIAN__TIME_OF_DAY(a0: i64) -> i64;
    fn FROM_BIG_ENDIAN__TIME_OF_DAY(a0: i64) -> i64;
    fn FROM_LITTLE_ENDIAN__TIME_OF_DAY(a0: i64) -> i64;
    fn TO_BIG_ENDIAN__DATE_AND_TIME(a0: i64) -> i64;
    fn TO_LITTLE_ENDIAN__DATE_AND_TIME(a0: i64) -> i64;
    fn FROM_BIG_ENDIAN__DATE_AND_TIME(a0: i64) -> i64;
    fn FROM_LITTLE_ENDIAN__DATE_AND_TIME(a0: i64) -> i64;
}
pub static OPS: &[Op] = &[
    Op { name: "SQRT__REAL", args: &[F32], call: |a| unsafe { SQRT__REAL(f32::from_bits(a[0] as u32)).to_bits() as u64 } },
    Op { name: "SQRT__LREAL", args: &[F64], call: |a| unsafe { SQRT__LREAL(f64::from_bits(a[0])).to_bits() } },
    Op { name: "LN__REAL", args: &[F32], call: |a| unsafe { LN__REAL(f32::from_bits(a[0] as u32)).to_bits() as u64 } },
    Op { name: "LN__LREAL", args: &[F64], call: |a| unsafe { LN__LREAL(f64::from_bits(a[0])).to_bits() } },
    Op { name: "LOG__REAL", args: &[F32], call: |a| unsafe { LOG__REAL(f32::from_bits(a[0] as u32)).to_bits() as u64 } },
    Op { name: "LOG__LREAL", args: &[F64], call: |a| unsafe { LOG__LREAL(f64::from_bits(a[0])).to_bits() } },
    Op { name: "EXP__REAL", args: &[F32], call: |a| unsafe { EXP__REAL(f32::from_bits(a[0] as u32)).to_bits() as u64 } },
    Op { name: "EXP__LREAL", args: &[F64], call: |a| unsafe { EXP__LREAL(f64::from_bits(a[0])).to_bits() } },
    Op { name: "SIN__REAL", args: &[F32], call: |a| unsafe { SIN__REAL(f32::from_bits(a[0] as u32)).to_bits() as u64 } },
    Op { name: "SIN__LREAL", args: &[F64], call: |a| unsafe { SIN__LREAL(f64::from_bits(a[0])).to_bits() } },
    Op { name: "COS__REAL", args: &[F32], call: |a| unsafe { COS__REAL(f32::from_bits(a[0] as u32)).to_bits() as u64 } },
    Op { name: "COS__LREAL", args: &[F64], call: |a| unsafe { COS__LREAL(f64::from_bits(a[0])).to_bits() } },
    Op { name: "TAN__REAL", args: &[F32], call: |a| unsafe { TAN__REAL(f32::from_bits(a[0] as u32)).to_bits() as u64 } },
    Op { name: "TAN__LREAL", args: &[F64], call: |a| unsafe { TAN__LREAL(f64::from_bits(a[0])).to_bits() } },
    Op { name: "ASIN__REAL", args: &[F32], call: |a| unsafe { ASIN__REAL(f32::from_bits(a[0] as u32)).to_bits() as u64 } },
    Op { name: "ASIN__LREAL", args: &[F64], call: |a| unsafe { ASIN__LREAL(f64::from_bits(a[0])).to_bits() } },
    Op { name: "ACOS__REAL", args: &[F32], call: |a| unsafe { ACOS__REAL(f32::from_bits(a[0] as u32)).to_bits() as u64 } },
    Op { name: "ACOS__LREAL", args: &[F64], call: |a| unsafe { ACOS__LREAL(f64::from_bits(a[0])).to_bits() } },
    Op { name: "ATAN__REAL", args: &[F32], call: |a| unsafe { ATAN__REAL(f32::from_bits(a[0] as u32)).to_bits() as u64 } },
    Op { name: "ATAN__LREAL", args: &[F64], call: |a| unsafe { ATAN__LREAL(f64::from_bits(a[0])).to_bits() } },
    Op { name: "ATAN2__REAL", args: &[F32, F32], call: |a| unsafe { ATAN2__REAL(f32::from_bits(a[0] as u32), f32::from_bits(a[1] as u32)).to_bits() as u64 } },
    Op { name: "ATAN2__LREAL", args: &[F64, F64], call: |a| unsafe { ATAN2__LREAL(f64::from_bits(a[0]), f64::from_bits(a[1])).to_bits() } },
    Op { name: "EXPT__REAL__DINT", args: &[F32, I32], call: |a| unsafe { EXPT__REAL__DINT(f32::from_bits(a[0] as u32), a[1] as i32).to_bits() as u64 } },
    Op { name: "EXPT__LREAL__DINT", args: &[F64, I32], call: |a| unsafe { EXPT__LREAL__DINT(f64::from_bits(a[0]), a[1] as i32).to_bits() } },
    Op { name: "EXPT__REAL__REAL", args: &[F32, F32], call: |a| unsafe { EXPT__REAL__REAL(f32::from_bits(a[0] as u32), f32::from_bits(a[1] as u32)).to_bits() as u64 } },
    Op { name: "EXPT__REAL__LREAL", args: &[F32, F64], call: |a| unsafe { EXPT__REAL__LREAL(f32::from_bits(a[0] as u32), f64::from_bits(a[1])).to_bits() as u64 } },
    Op { name: "EXPT__LREAL__REAL", args: &[F64, F32], call: |a| unsafe { EXPT__LREAL__REAL(f64::from_bits(a[0]), f32::from_bits(a[1] as u32)).to_bits() } },
    Op { name: "EXPT__LREAL__LREAL", args: &[F64, F64], call: |a| unsafe { EXPT__LREAL__LREAL(f64::from_bits(a[0]), f64::from_bits(a[1])).to_bits() } },
    Op { name: "LWORD_TO_LREAL", args: &[U64], call: |a| unsafe { LWORD_TO_LREAL(a[0] as u64).to_bits() } },
    Op { name: "DWORD_TO_REAL", args: &[U32], call: |a| unsafe { DWORD_TO_REAL(a[0] as u32).to_bits() as u64 } },
    Op { name: "LREAL_TO_LWORD", args: &[F64], call: |a| unsafe { LREAL_TO_LWORD(f64::from_bits(a[0])) as u64 } },
    Op { name: "REAL_TO_DWORD", args: &[F32], call: |a| unsafe { REAL_TO_DWORD(f32::from_bits(a[0] as u32)) as u64 } },
    Op { name: "SHL__BYTE", args: &[U8, U32], call: |a| unsafe { SHL__BYTE(a[0] as u8, a[1] as u32) as u64 } },
    Op { name: "SHL__WORD", args: &[U16, U32], call: |a| unsafe { SHL__WORD(a[0] as u16, a[1] as u32) as u64 } },
    Op { name: "SHL__DWORD", args: &[U32, U32], call: |a| unsafe { SHL__DWORD(a[0] as u32, a[1] as u32) as u64 } },
    Op { name: "SHL__LWORD", args: &[U64, U32], call: |a| unsafe { SHL__LWORD(a[0] as u64, a[1] as u32) as u64 } },
    Op { name: "SHR__BYTE", args: &[U8, U32], call: |a| unsafe { SHR__BYTE(a[0] as u8, a[1] as u32) as u64 } },
    Op { name: "SHR__WORD", args: &[U16, U32], call: |a| unsafe { SHR__WORD(a[0] as u16, a[1] as u32) as u64 } },
    Op { name: "SHR__DWORD", args: &[U32, U32], call: |a| unsafe { SHR__DWORD(a[0] as u32, a[1] as u32) as u64 } },
    Op { name: "SHR__LWORD", args: &[U64, U32], call: |a| unsafe { SHR__LWORD(a[0] as u64, a[1] as u32) as u64 } },
    Op { name: "ROL__BYTE", args: &[U8, U32], call: |a| unsafe { ROL__BYTE(a[0] as u8, a[1] as u32) as u64 } },
    Op { name: "ROL__WORD", args: &[U16, U32], call: |a| unsafe { ROL__WORD(a[0] as u16, a[1] as u32) as u64 } },
    Op { name: "ROL__DWORD", args: &[U32, U32], call: |a| unsafe { ROL__DWORD(a[0] as u32, a[1] as u32) as u64 } },
    Op { name: "ROL__LWORD", args: &[U64, U32], call: |a| unsafe { ROL__LWORD(a[0] as u64, a[1] as u32) as u64 } },
    Op { name: "ROR__BYTE", args: &[U8, U32], call: |a| unsafe { ROR__BYTE(a[0] as u8, a[1] as u32) as u64 } },
    Op { name: "ROR__WORD", args: &[U16, U32], call: |a| unsafe { ROR__WORD(a[0] as u16, a[1] as u32) as u64 } },
    Op { name: "ROR__DWORD", args: &[U32, U32], call: |a| unsafe { ROR__DWORD(a[0] as u32, a[1] as u32) as u64 } },
    Op { name: "ROR__LWORD", args: &[U64, U32], call: |a| unsafe { ROR__LWORD(a[0] as u64, a[1] as u32) as u64 } },
    Op { name: "DATE_AND_TIME_TO_DATE", args: &[I64], call: |a| unsafe { DATE_AND_TIME_TO_DATE(a[0] as i64) as u64 } },
    Op { name: "DATE_AND_TIME_TO_TIME_OF_DAY", args: &[I64], call: |a| unsafe { DATE_AND_TIME_TO_TIME_OF_DAY(a[0] as i64) as u64 } },
    Op { name: "CONCAT_DATE_TOD", args: &[I64, I64], call: |a| unsafe { CONCAT_DATE_TOD(a[0] as i64, a[1] as i64) as u64 } },
    Op { name: "CONCAT_DATE__INT", args: &[I16, I16, I16], call: |a| unsafe { CONCAT_DATE__INT(a[0] as i16, a[1] as i16, a[2] as i16) as u64 } },
    Op { name: "CONCAT_DATE__UINT", args: &[U16, U16, U16], call: |a| unsafe { CONCAT_DATE__UINT(a[0] as u16, a[1] as u16, a[2] as u16) as u64 } },
    Op { name: "CONCAT_DATE__DINT", args: &[I32, I32, I32], call: |a| unsafe { CONCAT_DATE__DINT(a[0] as i32, a[1] as i32, a[2] as i32) as u64 } },
    Op { name: "CONCAT_DATE__UDINT", args: &[U32, U32, U32], call: |a| unsafe { CONCAT_DATE__UDINT(a[0] as u32, a[1] as u32, a[2] as u32) as u64 } },
    Op { name: "CONCAT_DATE__LINT", args: &[I64, I64, I64], call: |a| unsafe { CONCAT_DATE__LINT(a[0] as i64, a[1] as i64, a[2] as i64) as u64 } },
    Op { name: "CONCAT_DATE__ULINT", args: &[U64, U64, U64], call: |a| unsafe { CONCAT_DATE__ULINT(a[0] as u64, a[1] as u64, a[2] as u64) as u64 } },
    Op { name: "CONCAT_TOD__SINT", args: &[I8, I8, I8, I8], call: |a| unsafe { CONCAT_TOD__SINT(a[0] as i8, a[1] as i8, a[2] as i8, a[3] as i8) as u64 } },
    Op { name: "CONCAT_TOD__USINT", args: &[U8, U8, U8, U8], call: |a| unsafe { CONCAT_TOD__USINT(a[0] as u8, a[1] as u8, a[2] as u8, a[3] as u8) as u64 } },
    Op { name: "CONCAT_TOD__INT", args: &[I16, I16, I16, I16], call: |a| unsafe { CONCAT_TOD__INT(a[0] as i16, a[1] as i16, a[2] as i16, a[3] as i16) as u64 } },
    Op { name: "CONCAT_TOD__UINT", args: &[U16, U16, U16, U16], call: |a| unsafe { CONCAT_TOD__UINT(a[0] as u16, a[1] as u16, a[2] as u16, a[3] as u16) as u64 } },
    Op { name: "CONCAT_TOD__DINT", args: &[I32, I32, I32, I32], call: |a| unsafe { CONCAT_TOD__DINT(a[0] as i32, a[1] as i32, a[2] as i32, a[3] as i32) as u64 } },
    Op { name: "CONCAT_TOD__UDINT", args: &[U32, U32, U32, U32], call: |a| unsafe { CONCAT_TOD__UDINT(a[0] as u32, a[1] as u32, a[2] as u32, a[3] as u32) as u64 } },
    Op { name: "CONCAT_TOD__LINT", args: &[I64, I64, I64, I64], call: |a| unsafe { CONCAT_TOD__LINT(a[0] as i64, a[1] as i64, a[2] as i64, a[3] as i64) as u64 } },
    Op { name: "CONCAT_TOD__ULINT", args: &[U64, U64, U64, U64], call: |a| unsafe { CONCAT_TOD__ULINT(a[0] as u64, a[1] as u64, a[2] as u64, a[3] as u64) as u64 } },
    Op { name: "SPLIT_DATE__INT", args: &[I64, Out(2), Out(2), Out(2)], call: |a| unsafe { SPLIT_DATE__INT(a[0] as i64, a[1] as *mut u8, a[2] as *mut u8, a[3] as *mut u8) as u64 } },
    Op { name: "SPLIT_DATE__UINT", args: &[I64, Out(2), Out(2), Out(2)], call: |a| unsafe { SPLIT_DATE__UINT(a[0] as i64, a[1] as *mut u8, a[2] as *mut u8, a[3] as *mut u8) as u64 } },
    Op { name: "SPLIT_DATE__DINT", args: &[I64, Out(4), Out(4), Out(4)], call: |a| unsafe { SPLIT_DATE__DINT(a[0] as i64, a[1] as *mut u8, a[2] as *mut u8, a[3] as *mut u8) as u64 } },
    Op { name: "SPLIT_DATE__UDINT", args: &[I64, Out(4), Out(4), Out(4)], call: |a| unsafe { SPLIT_DATE__UDINT(a[0] as i64, a[1] as *mut u8, a[2] as *mut u8, a[3] as *mut u8) as u64 } },
    Op { name: "SPLIT_DATE__LINT", args: &[I64, Out(8), Out(8), Out(8)], call: |a| unsafe { SPLIT_DATE__LINT(a[0] as i64, a[1] as *mut u8, a[2] as *mut u8, a[3] as *mut u8) as u64 } },
    Op { name: "SPLIT_DATE__ULINT", args: &[I64, Out(8), Out(8), Out(8)], call: |a| unsafe { SPLIT_DATE__ULINT(a[0] as i64, a[1] as *mut u8, a[2] as *mut u8, a[3] as *mut u8) as u64 } },
    Op { name: "SPLIT_TOD__INT", args: &[I64, Out(2), Out(2), Out(2), Out(2)], call: |a| unsafe { SPLIT_TOD__INT(a[0] as i64, a[1] as *mut u8, a[2] as *mut u8, a[3] as *mut u8, a[4] as *mut u8) as u64 } },
    Op { name: "SPLIT_TOD__UINT", args: &[I64, Out(2), Out(2), Out(2), Out(2)], call: |a| unsafe { SPLIT_TOD__UINT(a[0] as i64, a[1] as *mut u8, a[2] as *mut u8, a[3] as *mut u8, a[4] as *mut u8) as u64 } },
    Op { name: "SPLIT_TOD__DINT", args: &[I64, Out(4), Out(4), Out(4), Out(4)], call: |a| unsafe { SPLIT_TOD__DINT(a[0] as i64, a[1] as *mut u8, a[2] as *mut u8, a[3] as *mut u8, a[4] as *mut u8) as u64 } },
    Op { name: "SPLIT_TOD__UDINT", args: &[I64, Out(4), Out(4), Out(4), Out(4)], call: |a| unsafe { SPLIT_TOD__UDINT(a[0] as i64, a[1] as *mut u8, a[2] as *mut u8, a[3] as *mut u8, a[4] as *mut u8) as u64 } },
    Op { name: "SPLIT_TOD__LINT", args: &[I64, Out(8), Out(8), Out(8), Out(8)], call: |a| unsafe { SPLIT_TOD__LINT(a[0] as i64, a[1] as *mut u8, a[2] as *mut u8, a[3] as *mut u8, a[4] as *mut u8) as u64 } },
    Op { name: "SPLIT_TOD__ULINT", args: &[I64, Out(8), Out(8), Out(8), Out(8)], call: |a| unsafe { SPLIT_TOD__ULINT(a[0] as i64, a[1] as *mut u8, a[2] as *mut u8, a[3] as *mut u8, a[4] as *mut u8) as u64 } },
    Op { name: "SPLIT_DT__INT", args: &[I64, Out(2), Out(2), Out(2), Out(2), Out(2), Out(2), Out(2)], call: |a| unsafe { SPLIT_DT__INT(a[0] as i64, a[1] as *mut u8, a[2] as *mut u8, a[3] as *mut u8, a[4] as *mut u8, a[5] as *mut u8, a[6] as *mut u8, a[7] as *mut u8) as u64 } },
    Op { name: "SPLIT_DT__UINT", args: &[I64, Out(2), Out(2), Out(2), Out(2), Out(2), Out(2), Out(2)], call: |a| unsafe { SPLIT_DT__UINT(a[0] as i64, a[1] as *mut u8, a[2] as *mut u8, a[3] as *mut u8, a[4] as *mut u8, a[5] as *mut u8, a[6] as *mut u8, a[7] as *mut u8) as u64 } },
    Op { name: "SPLIT_DT__DINT", args: &[I64, Out(4), Out(4), Out(4), Out(4), Out(4), Out(4), Out(4)], call: |a| unsafe { SPLIT_DT__DINT(a[0] as i64, a[1] as *mut u8, a[2] as *mut u8, a[3] as *mut u8, a[4] as *mut u8, a[5] as *mut u8, a[6] as *mut u8, a[7] as *mut u8) as u64 } },
    Op { name: "SPLIT_DT__UDINT", args: &[I64, Out(4), Out(4), Out(4), Out(4), Out(4), Out(4), Out(4)], call: |a| unsafe { SPLIT_DT__UDINT(a[0] as i64, a[1] as *mut u8, a[2] as *mut u8, a[3] as *mut u8, a[4] as *mut u8, a[5] as *mut u8, a[6] as *mut u8, a[7] as *mut u8) as u64 } },
    Op { name: "SPLIT_DT__LINT", args: &[I64, Out(8), Out(8), Out(8), Out(8), Out(8), Out(8), Out(8)], call: |a| unsafe { SPLIT_DT__LINT(a[0] as i64, a[1] as *mut u8, a[2] as *mut u8, a[3] as *mut u8, a[4] as *mut u8, a[5] as *mut u8, a[6] as *mut u8, a[7] as *mut u8) as u64 } },
    Op { name: "SPLIT_DT__ULINT", args: &[I64, Out(8), Out(8), Out(8), Out(8), Out(8), Out(8), Out(8)], call: |a| unsafe { SPLIT_DT__ULINT(a[0] as i64, a[1] as *mut u8, a[2] as *mut u8, a[3] as *mut u8, a[4] as *mut u8, a[5] as *mut u8, a[6] as *mut u8, a[7] as *mut u8) as u64 } },
    Op { name: "DAY_OF_WEEK", args: &[I64], call: |a| unsafe { DAY_OF_WEEK(a[0] as i64) as u64 } },
    Op { name: "ADD_TIME", args: &[I64, I64], call: |a| unsafe { ADD_TIME(a[0] as i64, a[1] as i64) as u64 } },
    Op { name: "ADD_TOD_TIME", args: &[I64, I64], call: |a| unsafe { ADD_TOD_TIME(a[0] as i64, a[1] as i64) as u64 } },
    Op { name: "ADD_DT_TIME", args: &[I64, I64], call: |a| unsafe { ADD_DT_TIME(a[0] as i64, a[1] as i64) as u64 } },
    Op { name: "SUB_TIME", args: &[I64, I64], call: |a| unsafe { SUB_TIME(a[0] as i64, a[1] as i64) as u64 } },
    Op { name: "SUB_DATE_DATE", args: &[I64, I64], call: |a| unsafe { SUB_DATE_DATE(a[0] as i64, a[1] as i64) as u64 } },
    Op { name: "SUB_TOD_TIME", args: &[I64, I64], call: |a| unsafe { SUB_TOD_TIME(a[0] as i64, a[1] as i64) as u64 } },
    Op { name: "SUB_TOD_TOD", args: &[I64, I64], call: |a| unsafe { SUB_TOD_TOD(a[0] as i64, a[1] as i64) as u64 } },
    Op { name: "SUB_DT_TIME", args: &[I64, I64], call: |a| unsafe { SUB_DT_TIME(a[0] as i64, a[1] as i64) as u64 } },
    Op { name: "SUB_DT_DT", args: &[I64, I64], call: |a| unsafe { SUB_DT_DT(a[0] as i64, a[1] as i64) as u64 } },
    Op { name: "MUL__TIME__SINT", args: &[I64, I8], call: |a| unsafe { MUL__TIME__SINT(a[0] as i64, a[1] as i8) as u64 } },
    Op { name: "MUL__TIME__INT", args: &[I64, I16], call: |a| unsafe { MUL__TIME__INT(a[0] as i64, a[1] as i16) as u64 } },
    Op { name: "MUL__TIME__DINT", args: &[I64, I32], call: |a| unsafe { MUL__TIME__DINT(a[0] as i64, a[1] as i32) as u64 } },
    Op { name: "MUL__TIME__LINT", args: &[I64, I64], call: |a| unsafe { MUL__TIME__LINT(a[0] as i64, a[1] as i64) as u64 } },
    Op { name: "MUL_TIME__SINT", args: &[I64, I8], call: |a| unsafe { MUL_TIME__SINT(a[0] as i64, a[1] as i8) as u64 } },
    Op { name: "MUL_TIME__INT", args: &[I64, I16], call: |a| unsafe { MUL_TIME__INT(a[0] as i64, a[1] as i16) as u64 } },
    Op { name: "MUL_TIME__DINT", args: &[I64, I32], call: |a| unsafe { MUL_TIME__DINT(a[0] as i64, a[1] as i32) as u64 } },
    Op { name: "MUL_TIME__LINT", args: &[I64, I64], call: |a| unsafe { MUL_TIME__LINT(a[0] as i64, a[1] as i64) as u64 } },
    Op { name: "MUL_LTIME__SINT", args: &[I64, I8], call: |a| unsafe { MUL_LTIME__SINT(a[0] as i64, a[1] as i8) as u64 } },
    Op { name: "MUL_LTIME__INT", args: &[I64, I16], call: |a| unsafe { MUL_LTIME__INT(a[0] as i64, a[1] as i16) as u64 } },
    Op { name: "MUL_LTIME__DINT", args: &[I64, I32], call: |a| unsafe { MUL_LTIME__DINT(a[0] as i64, a[1] as i32) as u64 } },
    Op { name: "MUL_LTIME__LINT", args: &[I64, I64], call: |a| unsafe { MUL_LTIME__LINT(a[0] as i64, a[1] as i64) as u64 } },
    Op { name: "MUL__TIME__USINT", args: &[I64, U8], call: |a| unsafe { MUL__TIME__USINT(a[0] as i64, a[1] as u8) as u64 } },
    Op { name: "MUL__TIME__UINT", args: &[I64, U16], call: |a| unsafe { MUL__TIME__UINT(a[0] as i64, a[1] as u16) as u64 } },
    Op { name: "MUL__TIME__UDINT", args: &[I64, U32], call: |a| unsafe { MUL__TIME__UDINT(a[0] as i64, a[1] as u32) as u64 } },
    Op { name: "MUL__TIME__ULINT", args: &[I64, U64], call: |a| unsafe { MUL__TIME__ULINT(a[0] as i64, a[1] as u64) as u64 } },
    Op { name: "MUL_TIME__USINT", args: &[I64, U8], call: |a| unsafe { MUL_TIME__USINT(a[0] as i64, a[1] as u8) as u64 } },
    Op { name: "MUL_TIME__UINT", args: &[I64, U16], call: |a| unsafe { MUL_TIME__UINT(a[0] as i64, a[1] as u16) as u64 } },
    Op { name: "MUL_TIME__UDINT", args: &[I64, U32], call: |a| unsafe { MUL_TIME__UDINT(a[0] as i64, a[1] as u32) as u64 } },
    Op { name: "MUL_TIME__ULINT", args: &[I64, U64], call: |a| unsafe { MUL_TIME__ULINT(a[0] as i64, a[1] as u64) as u64 } },
    Op { name: "MUL_LTIME__USINT", args: &[I64, U8], call: |a| unsafe { MUL_LTIME__USINT(a[0] as i64, a[1] as u8) as u64 } },
    Op { name: "MUL_LTIME__UINT", args: &[I64, U16], call: |a| unsafe { MUL_LTIME__UINT(a[0] as i64, a[1] as u16) as u64 } },
    Op { name: "MUL_LTIME__UDINT", args: &[I64, U32], call: |a| unsafe { MUL_LTIME__UDINT(a[0] as i64, a[1] as u32) as u64 } },
    Op { name: "MUL_LTIME__ULINT", args: &[I64, U64], call: |a| unsafe { MUL_LTIME__ULINT(a[0] as i64, a[1] as u64) as u64 } },
    Op { name: "DIV__TIME__SINT", args: &[I64, I8], call: |a| unsafe { DIV__TIME__SINT(a[0] as i64, a[1] as i8) as u64 } },
    Op { name: "DIV__TIME__INT", args: &[I64, I16], call: |a| unsafe { DIV__TIME__INT(a[0] as i64, a[1] as i16) as u64 } },
    Op { name: "DIV__TIME__DINT", args: &[I64, I32], call: |a| unsafe { DIV__TIME__DINT(a[0] as i64, a[1] as i32) as u64 } },
    Op { name: "DIV__TIME__LINT", args: &[I64, I64], call: |a| unsafe { DIV__TIME__LINT(a[0] as i64, a[1] as i64) as u64 } },
    Op { name: "DIV_TIME__SINT", args: &[I64, I8], call: |a| unsafe { DIV_TIME__SINT(a[0] as i64, a[1] as i8) as u64 } },
    Op { name: "DIV_TIME__INT", args: &[I64, I16], call: |a| unsafe { DIV_TIME__INT(a[0] as i64, a[1] as i16) as u64 } },
    Op { name: "DIV_TIME__DINT", args: &[I64, I32], call: |a| unsafe { DIV_TIME__DINT(a[0] as i64, a[1] as i32) as u64 } },
    Op { name: "DIV_TIME__LINT", args: &[I64, I64], call: |a| unsafe { DIV_TIME__LINT(a[0] as i64, a[1] as i64) as u64 } },
    Op { name: "DIV_LTIME__SINT", args: &[I64, I8], call: |a| unsafe { DIV_LTIME__SINT(a[0] as i64, a[1] as i8) as u64 } },
    Op { name: "DIV_LTIME__INT", args: &[I64, I16], call: |a| unsafe { DIV_LTIME__INT(a[0] as i64, a[1] as i16) as u64 } },
    Op { name: "DIV_LTIME__DINT", args: &[I64, I32], call: |a| unsafe { DIV_LTIME__DINT(a[0] as i64, a[1] as i32) as u64 } },
    Op { name: "DIV_LTIME__LINT", args: &[I64, I64], call: |a| unsafe { DIV_LTIME__LINT(a[0] as i64, a[1] as i64) as u64 } },
    Op { name: "DIV__TIME__USINT", args: &[I64, U8], call: |a| unsafe { DIV__TIME__USINT(a[0] as i64, a[1] as u8) as u64 } },
    Op { name: "DIV__TIME__UINT", args: &[I64, U16], call: |a| unsafe { DIV__TIME__UINT(a[0] as i64, a[1] as u16) as u64 } },
    Op { name: "DIV__TIME__UDINT", args: &[I64, U32], call: |a| unsafe { DIV__TIME__UDINT(a[0] as i64, a[1] as u32) as u64 } },
    Op { name: "DIV__TIME__ULINT", args: &[I64, U64], call: |a| unsafe { DIV__TIME__ULINT(a[0] as i64, a[1] as u64) as u64 } },
    Op { name: "DIV_TIME__USINT", args: &[I64, U8], call: |a| unsafe { DIV_TIME__USINT(a[0] as i64, a[1] as u8) as u64 } },
    Op { name: "DIV_TIME__UINT", args: &[I64, U16], call: |a| unsafe { DIV_TIME__UINT(a[0] as i64, a[1] as u16) as u64 } },
    Op { name: "DIV_TIME__UDINT", args: &[I64, U32], call: |a| unsafe { DIV_TIME__UDINT(a[0] as i64, a[1] as u32) as u64 } },
    Op { name: "DIV_TIME__ULINT", args: &[I64, U64], call: |a| unsafe { DIV_TIME__ULINT(a[0] as i64, a[1] as u64) as u64 } },
    Op { name: "DIV_LTIME__USINT", args: &[I64, U8], call: |a| unsafe { DIV_LTIME__USINT(a[0] as i64, a[1] as u8) as u64 } },
    Op { name: "DIV_LTIME__UINT", args: &[I64, U16], call: |a| unsafe { DIV_LTIME__UINT(a[0] as i64, a[1] as u16) as u64 } },
    Op { name: "DIV_LTIME__UDINT", args: &[I64, U32], call: |a| unsafe { DIV_LTIME__UDINT(a[0] as i64, a[1] as u32) as u64 } },
    Op { name: "DIV_LTIME__ULINT", args: &[I64, U64], call: |a| unsafe { DIV_LTIME__ULINT(a[0] as i64, a[1] as u64) as u64 } },
    Op { name: "MUL__TIME__REAL", args: &[I64, F32], call: |a| unsafe { MUL__TIME__REAL(a[0] as i64, f32::from_bits(a[1] as u32)) as u64 } },
    Op { name: "MUL_TIME__REAL", args: &[I64, F32], call: |a| unsafe { MUL_TIME__REAL(a[0] as i64, f32::from_bits(a[1] as u32)) as u64 } },
    Op { name: "MUL_LTIME__REAL", args: &[I64, F32], call: |a| unsafe { MUL_LTIME__REAL(a[0] as i64, f32::from_bits(a[1] as u32)) as u64 } },
    Op { name: "MUL__TIME__LREAL", args: &[I64, F64], call: |a| unsafe { MUL__TIME__LREAL(a[0] as i64, f64::from_bits(a[1])) as u64 } },
    Op { name: "MUL_TIME__LREAL", args: &[I64, F64], call: |a| unsafe { MUL_TIME__LREAL(a[0] as i64, f64::from_bits(a[1])) as u64 } },
    Op { name: "MUL_LTIME__LREAL", args: &[I64, F64], call: |a| unsafe { MUL_LTIME__LREAL(a[0] as i64, f64::from_bits(a[1])) as u64 } },
    Op { name: "DIV__TIME__REAL", args: &[I64, F32], call: |a| unsafe { DIV__TIME__REAL(a[0] as i64, f32::from_bits(a[1] as u32)) as u64 } },
    Op { name: "DIV_TIME__REAL", args: &[I64, F32], call: |a| unsafe { DIV_TIME__REAL(a[0] as i64, f32::from_bits(a[1] as u32)) as u64 } },
    Op { name: "DIV_LTIME__REAL", args: &[I64, F32], call: |a| unsafe { DIV_LTIME__REAL(a[0] as i64, f32::from_bits(a[1] as u32)) as u64 } },
    Op { name: "DIV__TIME__LREAL", args: &[I64, F64], call: |a| unsafe { DIV__TIME__LREAL(a[0] as i64, f64::from_bits(a[1])) as u64 } },
    Op { name: "DIV_TIME__LREAL", args: &[I64, F64], call: |a| unsafe { DIV_TIME__LREAL(a[0] as i64, f64::from_bits(a[1])) as u64 } },
    Op { name: "DIV_LTIME__LREAL", args: &[I64, F64], call: |a| unsafe { DIV_LTIME__LREAL(a[0] as i64, f64::from_bits(a[1])) as u64 } },
    Op { name: "TO_BIG_ENDIAN__REAL", args: &[F32], call: |a| unsafe { TO_BIG_ENDIAN__REAL(f32::from_bits(a[0] as u32)).to_bits() as u64 } },
    Op { name: "TO_LITTLE_ENDIAN__REAL", args: &[F32], call: |a| unsafe { TO_LITTLE_ENDIAN__REAL(f32::from_bits(a[0] as u32)).to_bits() as u64 } },
    Op { name: "FROM_BIG_ENDIAN__REAL", args: &[F32], call: |a| unsafe { FROM_BIG_ENDIAN__REAL(f32::from_bits(a[0] as u32)).to_bits() as u64 } },
    Op { name: "FROM_LITTLE_ENDIAN__REAL", args: &[F32], call: |a| unsafe { FROM_LITTLE_ENDIAN__REAL(f32::from_bits(a[0] as u32)).to_bits() as u64 } },
    Op { name: "TO_BIG_ENDIAN__LREAL", args: &[F64], call: |a| unsafe { TO_BIG_ENDIAN__LREAL(f64::from_bits(a[0])).to_bits() } },
    Op { name: "TO_LITTLE_ENDIAN__LREAL", args: &[F64], call: |a| unsafe { TO_LITTLE_ENDIAN__LREAL(f64::from_bits(a[0])).to_bits() } },
    Op { name: "FROM_BIG_ENDIAN__LREAL", args: &[F64], call: |a| unsafe { FROM_BIG_ENDIAN__LREAL(f64::from_bits(a[0])).to_bits() } },
    Op { name: "FROM_LITTLE_ENDIAN__LREAL", args: &[F64], call: |a| unsafe { FROM_LITTLE_ENDIAN__LREAL(f64::from_bits(a[0])).to_bits() } },
    Op { name: "TO_BIG_ENDIAN__INT", args: &[I16], call: |a| unsafe { TO_BIG_ENDIAN__INT(a[0] as i16) as u64 } },
    Op { name: "TO_LITTLE_ENDIAN__INT", args: &[I16], call: |a| unsafe { TO_LITTLE_ENDIAN__INT(a[0] as i16) as u64 } },
    Op { name: "FROM_BIG_ENDIAN__INT", args: &[I16], call: |a| unsafe { FROM_BIG_ENDIAN__INT(a[0] as i16) as u64 } },
    Op { name: "FROM_LITTLE_ENDIAN__INT", args: &[I16], call: |a| unsafe { FROM_LITTLE_ENDIAN__INT(a[0] as i16) as u64 } },
    Op { name: "TO_BIG_ENDIAN__DINT", args: &[I32], call: |a| unsafe { TO_BIG_ENDIAN__DINT(a[0] as i32) as u64 } },
    Op { name: "TO_LITTLE_ENDIAN__DINT", args: &[I32], call: |a| unsafe { TO_LITTLE_ENDIAN__DINT(a[0] as i32) as u64 } },
    Op { name: "FROM_BIG_ENDIAN__DINT", args: &[I32], call: |a| unsafe { FROM_BIG_ENDIAN__DINT(a[0] as i32) as u64 } },
    Op { name: "FROM_LITTLE_ENDIAN__DINT", args: &[I32], call: |a| unsafe { FROM_LITTLE_ENDIAN__DINT(a[0] as i32) as u64 } },
    Op { name: "TO_BIG_ENDIAN__LINT", args: &[I64], call: |a| unsafe { TO_BIG_ENDIAN__LINT(a[0] as i64) as u64 } },
    Op { name: "TO_LITTLE_ENDIAN__LINT", args: &[I64], call: |a| unsafe { TO_LITTLE_ENDIAN__LINT(a[0] as i64) as u64 } },
    Op { name: "FROM_BIG_ENDIAN__LINT", args: &[I64], call: |a| unsafe { FROM_BIG_ENDIAN__LINT(a[0] as i64) as u64 } },
    Op { name: "FROM_LITTLE_ENDIAN__LINT", args: &[I64], call: |a| unsafe { FROM_LITTLE_ENDIAN__LINT(a[0] as i64) as u64 } },
    Op { name: "TO_BIG_ENDIAN__UINT", args: &[U16], call: |a| unsafe { TO_BIG_ENDIAN__UINT(a[0] as u16) as u64 } },
    Op { name: "TO_LITTLE_ENDIAN__UINT", args: &[U16], call: |a| unsafe { TO_LITTLE_ENDIAN__UINT(a[0] as u16) as u64 } },
    Op { name: "FROM_BIG_ENDIAN__UINT", args: &[U16], call: |a| unsafe { FROM_BIG_ENDIAN__UINT(a[0] as u16) as u64 } },
    Op { name: "FROM_LITTLE_ENDIAN__UINT", args: &[U16], call: |a| unsafe { FROM_LITTLE_ENDIAN__UINT(a[0] as u16) as u64 } },
    Op { name: "TO_BIG_ENDIAN__UDINT", args: &[U32], call: |a| unsafe { TO_BIG_ENDIAN__UDINT(a[0] as u32) as u64 } },
    Op { name: "TO_LITTLE_ENDIAN__UDINT", args: &[U32], call: |a| unsafe { TO_LITTLE_ENDIAN__UDINT(a[0] as u32) as u64 } },
    Op { name: "FROM_BIG_ENDIAN__UDINT", args: &[U32], call: |a| unsafe { FROM_BIG_ENDIAN__UDINT(a[0] as u32) as u64 } },
    Op { name: "FROM_LITTLE_ENDIAN__UDINT", args: &[U32], call: |a| unsafe { FROM_LITTLE_ENDIAN__UDINT(a[0] as u32) as u64 } },
    Op { name: "TO_BIG_ENDIAN__ULINT", args: &[U64], call: |a| unsafe { TO_BIG_ENDIAN__ULINT(a[0] as u64) as u64 } },
    Op { name: "TO_LITTLE_ENDIAN__ULINT", args: &[U64], call: |a| unsafe { TO_LITTLE_ENDIAN__ULINT(a[0] as u64) as u64 } },
    Op { name: "FROM_BIG_ENDIAN__ULINT", args: &[U64], call: |a| unsafe { FROM_BIG_ENDIAN__ULINT(a[0] as u64) as u64 } },
    Op { name: "FROM_LITTLE_ENDIAN__ULINT", args: &[U64], call: |a| unsafe { FROM_LITTLE_ENDIAN__ULINT(a[0] as u64) as u64 } },
    Op { name: "TO_BIG_ENDIAN__WORD", args: &[U16], call: |a| unsafe { TO_BIG_ENDIAN__WORD(a[0] as u16) as u64 } },
    Op { name: "TO_LITTLE_ENDIAN__WORD", args: &[U16], call: |a| unsafe { TO_LITTLE_ENDIAN__WORD(a[0] as u16) as u64 } },
    Op { name: "FROM_BIG_ENDIAN__WORD", args: &[U16], call: |a| unsafe { FROM_BIG_ENDIAN__WORD(a[0] as u16) as u64 } },
    Op { name: "FROM_LITTLE_ENDIAN__WORD", args: &[U16], call: |a| unsafe { FROM_LITTLE_ENDIAN__WORD(a[0] as u16) as u64 } },
    Op { name: "TO_BIG_ENDIAN__DWORD", args: &[U32], call: |a| unsafe { TO_BIG_ENDIAN__DWORD(a[0] as u32) as u64 } },
    Op { name: "TO_LITTLE_ENDIAN__DWORD", args: &[U32], call: |a| unsafe { TO_LITTLE_ENDIAN__DWORD(a[0] as u32) as u64 } },
    Op { name: "FROM_BIG_ENDIAN__DWORD", args: &[U32], call: |a| unsafe { FROM_BIG_ENDIAN__DWORD(a[0] as u32) as u64 } },
    Op { name: "FROM_LITTLE_ENDIAN__DWORD", args: &[U32], call: |a| unsafe { FROM_LITTLE_ENDIAN__DWORD(a[0] as u32) as u64 } },
    Op { name: "TO_BIG_ENDIAN__LWORD", args: &[U64], call: |a| unsafe { TO_BIG_ENDIAN__LWORD(a[0] as u64) as u64 } },
    Op { name: "TO_LITTLE_ENDIAN__LWORD", args: &[U64], call: |a| unsafe { TO_LITTLE_ENDIAN__LWORD(a[0] as u64) as u64 } },
    Op { name: "FROM_BIG_ENDIAN__LWORD", args: &[U64], call: |a| unsafe { FROM_BIG_ENDIAN__LWORD(a[0] as u64) as u64 } },
    Op { name: "FROM_LITTLE_ENDIAN__LWORD", args: &[U64], call: |a| unsafe { FROM_LITTLE_ENDIAN__LWORD(a[0] as u64) as u64 } },
    Op { name: "TO_BIG_ENDIAN__WCHAR", args: &[U16], call: |a| unsafe { TO_BIG_ENDIAN__WCHAR(a[0] as u16) as u64 } },
    Op { name: "TO_LITTLE_ENDIAN__WCHAR", args: &[U16], call: |a| unsafe { TO_LITTLE_ENDIAN__WCHAR(a[0] as u16) as u64 } },
    Op { name: "FROM_BIG_ENDIAN__WCHAR", args: &[U16], call: |a| unsafe { FROM_BIG_ENDIAN__WCHAR(a[0] as u16) as u64 } },
    Op { name: "FROM_LITTLE_ENDIAN__WCHAR", args: &[U16], call: |a| unsafe { FROM_LITTLE_ENDIAN__WCHAR(a[0] as u16) as u64 } },
    Op { name: "TO_BIG_ENDIAN__DATE", args: &[I64], call: |a| unsafe { TO_BIG_ENDIAN__DATE(a[0] as i64) as u64 } },
    Op { name: "TO_LITTLE_ENDIAN__DATE", args: &[I64], call: |a| unsafe { TO_LITTLE_ENDIAN__DATE(a[0] as i64) as u64 } },
    Op { name: "FROM_BIG_ENDIAN__DATE", args: &[I64], call: |a| unsafe { FROM_BIG_ENDIAN__DATE(a[0] as i64) as u64 } },
    Op { name: "FROM_LITTLE_ENDIAN__DATE", args: &[I64], call: |a| unsafe { FROM_LITTLE_ENDIAN__DATE(a[0] as i64) as u64 } },
    Op { name: "TO_BIG_ENDIAN__TIME_OF_DAY", args: &[I64], call: |a| unsafe { TO_BIG_ENDIAN__TIME_OF_DAY(a[0] as i64) as u64 } },
    Op { name: "TO_LITTLE_ENDIAN__TIME_OF_DAY", args: &[I64], call: |a| unsafe { TO_LITTLE_ENDIAN__TIME_OF_DAY(a[0] as i64) as u64 } },
    Op { name: "FROM_BIG_ENDIAN__TIME_OF_DAY", args: &[I64], call: |a| unsafe { FROM_BIG_ENDIAN__TIME_OF_DAY(a[0] as i64) as u64 } },
    Op { name: "FROM_LITTLE_ENDIAN__TIME_OF_DAY", args: &[I64], call: |a| unsafe { FROM_LITTLE_ENDIAN__TIME_OF_DAY(a[0] as i64) as u64 } },
    Op { name: "TO_BIG_ENDIAN__DATE_AND_TIME", args: &[I64], call: |a| unsafe { TO_BIG_ENDIAN__DATE_AND_TIME(a[0] as i64) as u64 } },
    Op { name: "TO_LITTLE_ENDIAN__DATE_AND_TIME", args: &[I64], call: |a| unsafe { TO_LITTLE_ENDIAN__DATE_AND_TIME(a[0] as i64) as u64 } },
    Op { name: "FROM_BIG_ENDIAN__DATE_AND_TIME", args: &[I64], call: |a| unsafe { FROM_BIG_ENDIAN__DATE_AND_TIME(a[0] as i64) as u64 } },
    Op { name: "FROM_LITTLE_ENDIAN__DATE_AND_TIME", args: &[I64], call: |a| unsafe { FROM_LITTLE_ENDIAN__DATE_AND_TIME(a[0] as i64) as u64 } },
    Op { name: "BYTE_TO_STRING_EXT", args: &[U8, Dest8], call: |a| unsafe { BYTE_TO_STRING_EXT(a[0] as u8, a[1] as *mut u8) as u64 } },
    Op { name: "LWORD_TO_STRING_EXT", args: &[U64, Dest8], call: |a| unsafe { LWORD_TO_STRING_EXT(a[0] as u64, a[1] as *mut u8) as u64 } },
    Op { name: "LINT_TO_STRING_EXT", args: &[I64, Dest8], call: |a| unsafe { LINT_TO_STRING_EXT(a[0] as i64, a[1] as *mut u8) as u64 } },
    Op { name: "LREAL_TO_STRING_EXT", args: &[F64, Dest8], call: |a| unsafe { LREAL_TO_STRING_EXT(f64::from_bits(a[0]), a[1] as *mut u8) as u64 } },
    Op { name: "REAL_TO_STRING_EXT", args: &[F64, Dest8], call: |a| unsafe { REAL_TO_STRING_EXT(f64::from_bits(a[0]), a[1] as *mut u8) as u64 } },
    Op { name: "STRING_TO_LINT", args: &[Src8], call: |a| unsafe { STRING_TO_LINT(a[0] as *mut u8) as u64 } },
    Op { name: "STRING_TO_DINT", args: &[Src8], call: |a| unsafe { STRING_TO_DINT(a[0] as *mut u8) as u64 } },
    Op { name: "STRING_TO_LREAL", args: &[Src8], call: |a| unsafe { STRING_TO_LREAL(a[0] as *mut u8).to_bits() } },
    Op { name: "STRING_TO_REAL", args: &[Src8], call: |a| unsafe { STRING_TO_REAL(a[0] as *mut u8).to_bits() as u64 } },
    Op { name: "TIME_TO_STRING_EXT", args: &[I64, Dest8], call: |a| unsafe { TIME_TO_STRING_EXT(a[0] as i64, a[1] as *mut u8) as u64 } },
    Op { name: "DT_TO_STRING_EXT", args: &[I64, Dest8], call: |a| unsafe { DT_TO_STRING_EXT(a[0] as i64, a[1] as *mut u8) as u64 } },
    Op { name: "DATE_TO_STRING_EXT", args: &[I64, Dest8], call: |a| unsafe { DATE_TO_STRING_EXT(a[0] as i64, a[1] as *mut u8) as u64 } },
    Op { name: "TOD_TO_STRING_EXT", args: &[I64, Dest8], call: |a| unsafe { TOD_TO_STRING_EXT(a[0] as i64, a[1] as *mut u8) as u64 } },
    Op { name: "ROUND__REAL", args: &[F32], call: |a| unsafe { ROUND__REAL(f32::from_bits(a[0] as u32)).to_bits() as u64 } },
    Op { name: "ROUND__LREAL", args: &[F64], call: |a| unsafe { ROUND__LREAL(f64::from_bits(a[0])).to_bits() } },
    Op { name: "WSTRING_TO_STRING_EXT", args: &[Src16, Dest8], call: |a| unsafe { WSTRING_TO_STRING_EXT(a[0] as *mut u8, a[1] as *mut u8) as u64 } },
    Op { name: "STRING_TO_WSTRING_EXT", args: &[Src8, Dest16], call: |a| unsafe { STRING_TO_WSTRING_EXT(a[0] as *mut u8, a[1] as *mut u8) as u64 } },
    Op { name: "WCHAR_TO_CHAR", args: &[U16], call: |a| unsafe { WCHAR_TO_CHAR(a[0] as u16) as u64 } },
    Op { name: "CHAR_TO_WCHAR", args: &[U8], call: |a| unsafe { CHAR_TO_WCHAR(a[0] as u8) as u64 } },
    Op { name: "LEN__STRING", args: &[Src8], call: |a| unsafe { LEN__STRING(a[0] as *mut u8) as u64 } },
    Op { name: "LEN__WSTRING", args: &[Src16], call: |a| unsafe { LEN__WSTRING(a[0] as *mut u8) as u64 } },
    Op { name: "FIND__STRING", args: &[Src8, Src8], call: |a| unsafe { FIND__STRING(a[0] as *mut u8, a[1] as *mut u8) as u64 } },
    Op { name: "FIND__WSTRING", args: &[Src16, Src16], call: |a| unsafe { FIND__WSTRING(a[0] as *mut u8, a[1] as *mut u8) as u64 } },
    Op { name: "LEFT_EXT__STRING", args: &[Src8, I32, Dest8], call: |a| unsafe { LEFT_EXT__STRING(a[0] as *mut u8, a[1] as i32, a[2] as *mut u8) as u64 } },
    Op { name: "LEFT_EXT__WSTRING", args: &[Src16, I32, Dest16], call: |a| unsafe { LEFT_EXT__WSTRING(a[0] as *mut u8, a[1] as i32, a[2] as *mut u8) as u64 } },
    Op { name: "RIGHT_EXT__STRING", args: &[Src8, I32, Dest8], call: |a| unsafe { RIGHT_EXT__STRING(a[0] as *mut u8, a[1] as i32, a[2] as *mut u8) as u64 } },
    Op { name: "RIGHT_EXT__WSTRING", args: &[Src16, I32, Dest16], call: |a| unsafe { RIGHT_EXT__WSTRING(a[0] as *mut u8, a[1] as i32, a[2] as *mut u8) as u64 } },
    Op { name: "MID_EXT__STRING", args: &[Src8, I32, I32, Dest8], call: |a| unsafe { MID_EXT__STRING(a[0] as *mut u8, a[1] as i32, a[2] as i32, a[3] as *mut u8) as u64 } },
    Op { name: "MID_EXT__WSTRING", args: &[Src16, I32, I32, Dest16], call: |a| unsafe { MID_EXT__WSTRING(a[0] as *mut u8, a[1] as i32, a[2] as i32, a[3] as *mut u8) as u64 } },
    Op { name: "INSERT_EXT__STRING", args: &[Src8, Src8, I32, Dest8], call: |a| unsafe { INSERT_EXT__STRING(a[0] as *mut u8, a[1] as *mut u8, a[2] as i32, a[3] as *mut u8) as u64 } },
    Op { name: "INSERT_EXT__WSTRING", args: &[Src16, Src16, I32, Dest16], call: |a| unsafe { INSERT_EXT__WSTRING(a[0] as *mut u8, a[1] as *mut u8, a[2] as i32, a[3] as *mut u8) as u64 } },
    Op { name: "DELETE_EXT__STRING", args: &[Src8, I32, I32, Dest8], call: |a| unsafe { DELETE_EXT__STRING(a[0] as *mut u8, a[1] as i32, a[2] as i32, a[3] as *mut u8) as u64 } },
    Op { name: "DELETE_EXT__WSTRING", args: &[Src16, I32, I32, Dest16], call: |a| unsafe { DELETE_EXT__WSTRING(a[0] as *mut u8, a[1] as i32, a[2] as i32, a[3] as *mut u8) as u64 } },
    Op { name: "REPLACE_EXT__STRING", args: &[Src8, Src8, I32, I32, Dest8], call: |a| unsafe { REPLACE_EXT__STRING(a[0] as *mut u8, a[1] as *mut u8, a[2] as i32, a[3] as i32, a[4] as *mut u8) as u64 } },
    Op { name: "REPLACE_EXT__WSTRING", args: &[Src16, Src16, I32, I32, Dest16], call: |a| unsafe { REPLACE_EXT__WSTRING(a[0] as *mut u8, a[1] as *mut u8, a[2] as i32, a[3] as i32, a[4] as *mut u8) as u64 } },
    Op { name: "CONCAT__STRING", args: &[Dest8, Argc, Argv8], call: |a| unsafe { { CONCAT__STRING(a[0] as *mut u8, a[1] as i32, a[2] as *mut u8); 0 } } },
    Op { name: "CONCAT_EXT__STRING", args: &[Dest8, Argc, Argv8], call: |a| unsafe { CONCAT_EXT__STRING(a[0] as *mut u8, a[1] as i32, a[2] as *mut u8) as u64 } },
    Op { name: "CONCAT__WSTRING", args: &[Dest16, Argc, Argv16], call: |a| unsafe { { CONCAT__WSTRING(a[0] as *mut u8, a[1] as i32, a[2] as *mut u8); 0 } } },
    Op { name: "CONCAT_EXT__WSTRING", args: &[Dest16, Argc, Argv16], call: |a| unsafe { CONCAT_EXT__WSTRING(a[0] as *mut u8, a[1] as i32, a[2] as *mut u8) as u64 } },
    Op { name: "GT__STRING", args: &[Argc, Argv8], call: |a| unsafe { GT__STRING(a[0] as i32, a[1] as *mut u8) as u64 } },
    Op { name: "GT__WSTRING", args: &[Argc, Argv16], call: |a| unsafe { GT__WSTRING(a[0] as i32, a[1] as *mut u8) as u64 } },
    Op { name: "GE__STRING", args: &[Argc, Argv8], call: |a| unsafe { GE__STRING(a[0] as i32, a[1] as *mut u8) as u64 } },
    Op { name: "GE__WSTRING", args: &[Argc, Argv16], call: |a| unsafe { GE__WSTRING(a[0] as i32, a[1] as *mut u8) as u64 } },
    Op { name: "EQ__STRING", args: &[Argc, Argv8], call: |a| unsafe { EQ__STRING(a[0] as i32, a[1] as *mut u8) as u64 } },
    Op { name: "EQ__WSTRING", args: &[Argc, Argv16], call: |a| unsafe { EQ__WSTRING(a[0] as i32, a[1] as *mut u8) as u64 } },
    Op { name: "LE__STRING", args: &[Argc, Argv8], call: |a| unsafe { LE__STRING(a[0] as i32, a[1] as *mut u8) as u64 } },
    Op { name: "LE__WSTRING", args: &[Argc, Argv16], call: |a| unsafe { LE__WSTRING(a[0] as i32, a[1] as *mut u8) as u64 } },
    Op { name: "LT__STRING", args: &[Argc, Argv8], call: |a| unsafe { LT__STRING(a[0] as i32, a[1] as *mut u8) as u64 } },
    Op { name: "LT__WSTRING", args: &[Argc, Argv16], call: |a| unsafe { LT__WSTRING(a[0] as i32, a[1] as *mut u8) as u64 } },
    Op { name: "NE__STRING", args: &[Src8, Src8], call: |a| unsafe { NE__STRING(a[0] as *mut u8, a[1] as *mut u8) as u64 } },
    Op { name: "NE__WSTRING", args: &[Src16, Src16], call: |a| unsafe { NE__WSTRING(a[0] as *mut u8, a[1] as *mut u8) as u64 } },
    Op { name: "MAX__BOOL", args: &[Count, Arr(1)], call: |a| unsafe { MAX__BOOL(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "MIN__BOOL", args: &[Count, Arr(1)], call: |a| unsafe { MIN__BOOL(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "LIMIT__BOOL", args: &[U8, U8, U8], call: |a| unsafe { LIMIT__BOOL(a[0] as u8, a[1] as u8, a[2] as u8) as u64 } },
    Op { name: "MAX__BYTE", args: &[Count, Arr(1)], call: |a| unsafe { MAX__BYTE(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "MIN__BYTE", args: &[Count, Arr(1)], call: |a| unsafe { MIN__BYTE(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "LIMIT__BYTE", args: &[U8, U8, U8], call: |a| unsafe { LIMIT__BYTE(a[0] as u8, a[1] as u8, a[2] as u8) as u64 } },
    Op { name: "MAX__CHAR", args: &[Count, Arr(1)], call: |a| unsafe { MAX__CHAR(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "MIN__CHAR", args: &[Count, Arr(1)], call: |a| unsafe { MIN__CHAR(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "LIMIT__CHAR", args: &[U8, U8, U8], call: |a| unsafe { LIMIT__CHAR(a[0] as u8, a[1] as u8, a[2] as u8) as u64 } },
    Op { name: "MAX__WORD", args: &[Count, Arr(2)], call: |a| unsafe { MAX__WORD(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "MIN__WORD", args: &[Count, Arr(2)], call: |a| unsafe { MIN__WORD(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "LIMIT__WORD", args: &[U16, U16, U16], call: |a| unsafe { LIMIT__WORD(a[0] as u16, a[1] as u16, a[2] as u16) as u64 } },
    Op { name: "MAX__WCHAR", args: &[Count, Arr(2)], call: |a| unsafe { MAX__WCHAR(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "MIN__WCHAR", args: &[Count, Arr(2)], call: |a| unsafe { MIN__WCHAR(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "LIMIT__WCHAR", args: &[U16, U16, U16], call: |a| unsafe { LIMIT__WCHAR(a[0] as u16, a[1] as u16, a[2] as u16) as u64 } },
    Op { name: "MAX__DWORD", args: &[Count, Arr(4)], call: |a| unsafe { MAX__DWORD(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "MIN__DWORD", args: &[Count, Arr(4)], call: |a| unsafe { MIN__DWORD(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "LIMIT__DWORD", args: &[U32, U32, U32], call: |a| unsafe { LIMIT__DWORD(a[0] as u32, a[1] as u32, a[2] as u32) as u64 } },
    Op { name: "MAX__LWORD", args: &[Count, Arr(8)], call: |a| unsafe { MAX__LWORD(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "MIN__LWORD", args: &[Count, Arr(8)], call: |a| unsafe { MIN__LWORD(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "LIMIT__LWORD", args: &[U64, U64, U64], call: |a| unsafe { LIMIT__LWORD(a[0] as u64, a[1] as u64, a[2] as u64) as u64 } },
    Op { name: "MAX__SINT", args: &[Count, Arr(1)], call: |a| unsafe { MAX__SINT(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "MIN__SINT", args: &[Count, Arr(1)], call: |a| unsafe { MIN__SINT(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "LIMIT__SINT", args: &[I8, I8, I8], call: |a| unsafe { LIMIT__SINT(a[0] as i8, a[1] as i8, a[2] as i8) as u64 } },
    Op { name: "MAX__USINT", args: &[Count, Arr(1)], call: |a| unsafe { MAX__USINT(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "MIN__USINT", args: &[Count, Arr(1)], call: |a| unsafe { MIN__USINT(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "LIMIT__USINT", args: &[U8, U8, U8], call: |a| unsafe { LIMIT__USINT(a[0] as u8, a[1] as u8, a[2] as u8) as u64 } },
    Op { name: "MAX__INT", args: &[Count, Arr(2)], call: |a| unsafe { MAX__INT(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "MIN__INT", args: &[Count, Arr(2)], call: |a| unsafe { MIN__INT(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "LIMIT__INT", args: &[I16, I16, I16], call: |a| unsafe { LIMIT__INT(a[0] as i16, a[1] as i16, a[2] as i16) as u64 } },
    Op { name: "MAX__UINT", args: &[Count, Arr(2)], call: |a| unsafe { MAX__UINT(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "MIN__UINT", args: &[Count, Arr(2)], call: |a| unsafe { MIN__UINT(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "LIMIT__UINT", args: &[U16, U16, U16], call: |a| unsafe { LIMIT__UINT(a[0] as u16, a[1] as u16, a[2] as u16) as u64 } },
    Op { name: "MAX__DINT", args: &[Count, Arr(4)], call: |a| unsafe { MAX__DINT(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "MIN__DINT", args: &[Count, Arr(4)], call: |a| unsafe { MIN__DINT(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "LIMIT__DINT", args: &[I32, I32, I32], call: |a| unsafe { LIMIT__DINT(a[0] as i32, a[1] as i32, a[2] as i32) as u64 } },
    Op { name: "MAX__UDINT", args: &[Count, Arr(4)], call: |a| unsafe { MAX__UDINT(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "MIN__UDINT", args: &[Count, Arr(4)], call: |a| unsafe { MIN__UDINT(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "LIMIT__UDINT", args: &[U32, U32, U32], call: |a| unsafe { LIMIT__UDINT(a[0] as u32, a[1] as u32, a[2] as u32) as u64 } },
    Op { name: "MAX__LINT", args: &[Count, Arr(8)], call: |a| unsafe { MAX__LINT(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "MIN__LINT", args: &[Count, Arr(8)], call: |a| unsafe { MIN__LINT(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "LIMIT__LINT", args: &[I64, I64, I64], call: |a| unsafe { LIMIT__LINT(a[0] as i64, a[1] as i64, a[2] as i64) as u64 } },
    Op { name: "MAX__ULINT", args: &[Count, Arr(8)], call: |a| unsafe { MAX__ULINT(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "MIN__ULINT", args: &[Count, Arr(8)], call: |a| unsafe { MIN__ULINT(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "LIMIT__ULINT", args: &[U64, U64, U64], call: |a| unsafe { LIMIT__ULINT(a[0] as u64, a[1] as u64, a[2] as u64) as u64 } },
    Op { name: "MAX__DATE", args: &[Count, Arr(8)], call: |a| unsafe { MAX__DATE(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "MIN__DATE", args: &[Count, Arr(8)], call: |a| unsafe { MIN__DATE(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "LIMIT__DATE", args: &[I64, I64, I64], call: |a| unsafe { LIMIT__DATE(a[0] as i64, a[1] as i64, a[2] as i64) as u64 } },
    Op { name: "MAX__DATE_AND_TIME", args: &[Count, Arr(8)], call: |a| unsafe { MAX__DATE_AND_TIME(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "MIN__DATE_AND_TIME", args: &[Count, Arr(8)], call: |a| unsafe { MIN__DATE_AND_TIME(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "LIMIT__DATE_AND_TIME", args: &[I64, I64, I64], call: |a| unsafe { LIMIT__DATE_AND_TIME(a[0] as i64, a[1] as i64, a[2] as i64) as u64 } },
    Op { name: "MAX__TIME", args: &[Count, Arr(8)], call: |a| unsafe { MAX__TIME(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "MIN__TIME", args: &[Count, Arr(8)], call: |a| unsafe { MIN__TIME(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "LIMIT__TIME", args: &[I64, I64, I64], call: |a| unsafe { LIMIT__TIME(a[0] as i64, a[1] as i64, a[2] as i64) as u64 } },
    Op { name: "MAX__TIME_OF_DAY", args: &[Count, Arr(8)], call: |a| unsafe { MAX__TIME_OF_DAY(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "MIN__TIME_OF_DAY", args: &[Count, Arr(8)], call: |a| unsafe { MIN__TIME_OF_DAY(a[0] as u32, a[1] as *mut u8) as u64 } },
    Op { name: "LIMIT__TIME_OF_DAY", args: &[I64, I64, I64], call: |a| unsafe { LIMIT__TIME_OF_DAY(a[0] as i64, a[1] as i64, a[2] as i64) as u64 } },
    Op { name: "MAX__REAL", args: &[Count, Arr(4)], call: |a| unsafe { MAX__REAL(a[0] as u32, a[1] as *mut u8).to_bits() as u64 } },
    Op { name: "MIN__REAL", args: &[Count, Arr(4)], call: |a| unsafe { MIN__REAL(a[0] as u32, a[1] as *mut u8).to_bits() as u64 } },
    Op { name: "LIMIT__REAL", args: &[F32, F32, F32], call: |a| unsafe { LIMIT__REAL(f32::from_bits(a[0] as u32), f32::from_bits(a[1] as u32), f32::from_bits(a[2] as u32)).to_bits() as u64 } },
    Op { name: "MAX__LREAL", args: &[Count, Arr(8)], call: |a| unsafe { MAX__LREAL(a[0] as u32, a[1] as *mut u8).to_bits() } },
    Op { name: "MIN__LREAL", args: &[Count, Arr(8)], call: |a| unsafe { MIN__LREAL(a[0] as u32, a[1] as *mut u8).to_bits() } },
    Op { name: "LIMIT__LREAL", args: &[F64, F64, F64], call: |a| unsafe { LIMIT__LREAL(f64::from_bits(a[0]), f64::from_bits(a[1]), f64::from_bits(a[2])).to_bits() } },
    Op { name: "IS_VALID__REAL", args: &[F32], call: |a| unsafe { IS_VALID__REAL(f32::from_bits(a[0] as u32)) as u64 } },
    Op { name: "IS_VALID__LREAL", args: &[F64], call: |a| unsafe { IS_VALID__LREAL(f64::from_bits(a[0])) as u64 } },
    Op { name: "IS_VALID_BCD__BYTE", args: &[U8], call: |a| unsafe { IS_VALID_BCD__BYTE(a[0] as u8) as u64 } },
    Op { name: "IS_VALID_BCD__WORD", args: &[U16], call: |a| unsafe { IS_VALID_BCD__WORD(a[0] as u16) as u64 } },
    Op { name: "IS_VALID_BCD__DWORD", args: &[U32], call: |a| unsafe { IS_VALID_BCD__DWORD(a[0] as u32) as u64 } },
    Op { name: "IS_VALID_BCD__LWORD", args: &[U64], call: |a| unsafe { IS_VALID_BCD__LWORD(a[0] as u64) as u64 } },
];
