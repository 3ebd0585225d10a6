// Written by `sim genzoo text`.
pub const BYTES: [&str; 36] = [
    "(Choice (With (Tok \"+\") (Skip (TakeUntilBytes \"\\x0d\\x0a\") (Crlf))) (With (Tok \":\") (Skip (FromStr) (Crlf))) (With (Tok \"$\") (Skip (TakeN 1 (Skip (FromStr) (Crlf))) (Crlf))) (With (Tok \"*\") (CountN 0 (Skip (FromStr) (Crlf)) (With (Tok \"$\") (Skip (TakeN 1 (Skip (FromStr) (Crlf))) (Crlf))))))",
    "(And (Seq (TakeWhile1 4) (Skip (Tok \" \") (SkipMany (Tok \" \"))) (TakeUntilBytes \"\\x0d\\x0a\") (Crlf)) (Skip (Many (Seq (TakeWhile1 4) (Tok \":\") (Skip (RecogRange (SkipMany (NoneOf \"\\x0d\"))) (Crlf)))) (Crlf)))",
    "(Skip (TakeN 1 (Skip (FromStr) (Tok \":\"))) (Tok \",\"))",
    "(Dispatch (Any) (Num 2) (Seq (Num 1) (Num 0)) (TakeN 1 (Num 0)))",
    "(Skip (ChainL1 (ChainL1 (FromStr) (Attempt (Between (Spaces) (Spaces) (Tok \"*\")))) (Attempt (Between (Spaces) (Spaces) (OneOf \"+-\")))) (Tok \";\"))",
    "(TakeN 1 (Between (Str \"Content-Length: \") (Str \"\\x0d\\x0a\\x0d\\x0a\") (FromStr)))",
    "(Seq (Or (Skip (Sat 5) (LookAhead (Tok \"1\"))) (SepBy1 (Range \";;;\") (Range \"aaa\"))) (Map 1 (Right (Tokens \";;\"))) (Newline))",
    "(Seq (Opt (ThenPartial 3 (And (TakeUntilByte \"ba\") (Any)) (Tokens \",ba\") (Take 1))) (Attempt (ThenPartial 1 (TakeWhile1 0) (SatMap 6) (FromStr))))",
    "(Skip (Opt (SepEndBy1 (Opaque (AndThen 3 (Skip (TakeFn \"b\" 0) (Range \"b\")))) (FlatMap 1 (Crlf)))) (Seq (TakeUntilRange \"00\") (Range \"00\")))",
    "(ThenPartial 3 (AnyState (FlatMap 3 (Num 1))) (Right (Opt (ParserM (OneOf \"x\")))) (Opaque (Or (Position) (Attempt (Crlf)))))",
    "(Seq (SkipCountMM 0 2 (AnyState (Num 1))) (RepeatSkipUntil (With (NotFollow (Range \"bb\")) (Tok \";\")) (Attempt (CountMM 2 0 (NoneOf \"ax\")))) (Tok \";\"))",
    "(Skip (Dispatch (Right (Position)) (And (Position) (Tokens \"0,\")) (AnySend (Take 3)) (With (Eof) (Str \"\\x0d \"))) (Newline))",
    "(And (Many (Choice (Attempt (Str \"b\")) (Seq (Letter) (Newline)) (ThenRef 3 (Range \" ,,b\") (Sat 2) (Spaces)))) (Newline))",
    "(Seq (AnySendSync (ChainL1 (Between (Value 7) (ParserM (Tokens \"xxaa\")) (Opt (Tokens \"00;\"))) (Silent (Range \";\")))) (Any) (Take 4))",
    "(Map 1 (ThenPartial 3 (Lazy (FromStr)) (ThenPartial 3 (Tokens \"0,\") (Str \";\\x0d;\") (TakeWhile1 7)) (RecogRange (Escaped \"\\\\\" (Sat 4) (NoPartial (Tokens \"x0\"))))))",
    "(And (Iterate 0 (ParserM (CountN 0 (Num 2) (OneOf \"x\"))) (And (Attempt (NoPartial (TakeWhile1 0))) (FnParser (Position)))) (Tok \";\"))",
    "(Seq (With (SkipCount 0 (Str \",0\")) (StructP (Take 2) (FromStr) (Range \"\\x0d\\x0da\"))) (ParserM (Or (Sat 3) (Unexpected))) (Num 12))",
    "(And (Map 1 (ThenRef 3 (Attempt (Sat 3)) (ThenRef 0 (TakeWhile1 4) (Str \"a\") (Take 4)) (Choice (Tok \",\") (Num 1)))) (Num 8))",
    "(Between (Num 3) (AndThen 1 (Dispatch (SatMap 0) (Digit) (Range \"0 b0\") (TakeWhile1 7))) (MapInput 1 (ThenPartial 2 (Lower) (Produce 8) (Tokens \"0aa\"))))",
    "(RecogRange (Between (CountMM 1 0 (AndThen 3 (TakeWhile1 3))) (Opt (Attempt (Num 11))) (Message (Seq (Range \"Aaa\") (Take 2) (OneOf \",,\")))))",
    "(Map 1 (Choice (Seq (Tokens \"xxxx\") (Sat 4)) (SepEndBy1 (Range \"b,ba\") (Tokens \"aa\")) (MapInput 2 (Crlf)) (Iterate 1 1 1 (Position) (Sat 3))))",
    "(Silent (Map 1 (Dispatch (Between (StrCmp \";,a\") (Hex) (Range \"ba\\x0d\")) (Or (Upper) (Take 2)) (Str \"aaa\") (Opaque (Tok \"A\")))))",
    "(Seq (Map 1 (Expected (Any))) (StructP (AnySendSync (Position)) (Map 2 (Num 7)) (Skip (Tokens \"0,,x\") (TakeWhile1 7))) (FromStr))",
    "(Seq (SepBy1 (Seq (TakeWhile 5) (RecogVal (Tok \"0\")) (Eof) (Message (FromStr))) (ChainL1 (Num 14) (Lower))) (OneOf \"a\"))",
    "(Skip (RecogVal (Seq (FlatMap 3 (TokensCmp \"x0\")) (Or (Range \"\\x0a\\x0a\\x0a\\x0a\") (Str \"x0x0\")) (Or (Tok \"1\") (Tok \"b\")) (TokensCmp \"xa\"))) (SatMap 1))",
    "(Seq (RecogVal (ChainL1 (Attempt (StructP (Tokens \"1\") (OneOf \"b0\") (Any))) (StructP (Range \";a\") (Tok \"b\") (StrCmp \"bb\")))) (TokensCmp \";0\"))",
    "(Between (Iterate (Recog (Sat 5)) (CountMM 2 0 (Range \"101x\"))) (FlatMap 0 (ThenPartial 3 (Oct) (TakeWhile 0) (OneOf \"00\"))) (AnyState (Tok \"a\")))",
    "(Choice (Take 3) (Map 1 (CountSink 2 0 (ThenRef 1 (Tok \"a\") (StrCmp \"b\") (TakeWhile1 5)))) (SepEndBy1 (TokensCmp \"aa\") (Message (Num 5))))",
    "(ThenPartial 3 (Crlf) (Seq (SatMap 4) (AnySend (Any)) (TakeUntil (SatMap 5)) (Opt (TakeWhile1 6))) (LookAhead (TakeWhile1 7)))",
    "(Or (Iterate 1 0 1 (Skip (Digit) (TakeUntilRange \"x00\")) (RecogVal (Sat 4))) (Or (LenPrefix 1 (Digit)) (CountMM 3 0 (TakeWhile1 7))))",
    "(Seq (Opaque (FlatMap 2 (TakeWhile1 7))) (SepBy (Then 2 (Eof) (Tok \"b\") (Tokens \"bb\")) (AnySendSync (Tok \"b\"))) (NoneOf \",\"))",
    "(And (Factory (Between (AndThen 2 (NoneOf \"b\")) (SepBy1 (Newline) (Tab)) (SepBy (Tokens \"x0xx\") (TokensCmp \"aa\")))) (Crlf))",
    "(And (StructP (Skip (NoneOf \"b\") (NoneOf \"bx\\x0d\")) (Attempt (Tok \";\")) (RecogVal (AlphaNum))) (RecogRange (Count 0 (Sat 3))))",
    "(Dispatch (AnyState (Range \"a0\")) (AndThen 1 (Num 0)) (RepeatUntil (Str \"AA\") (SatMap 7)) (Then 3 (TakeWhile1 5) (Sat 1) (Take 2)))",
    "(RecogVal (ThenPartial 0 (Digit) (FlatMap 1 (OneOf \"00a\")) (Seq (NoneOf \",a\") (LenPrefix 1 (Any)) (Range \" \") (Lower))))",
    "(Skip (Skip (SepEndBy1 (Take 3) (CountMM 2 0 (Str \"b\"))) (SepEndBy (Range \" a\") (AnySendSync (Take 4)))) (Num 7))",
];
pub const TEXT: [&str; 26] = [
    "(Skip (SepBy1 (Or (Between (Tok \"\\\"\") (Tok \"\\\"\") (Many (Or (Attempt (Str \"\\\"\\\"\")) (NoneOf \"\\\"\")))) (Recog (SkipMany (NoneOf \",\\x0a\\\"\")))) (Tok \",\")) (Newline))",
    "(With (SkipMany (Seq (Tok \"#\") (SkipMany (NoneOf \"\\x0a\")) (Newline))) (Seq (Many1 (Letter)) (Between (SkipMany (Tok \" \")) (SkipMany (Tok \" \")) (Tok \"=\")) (TakeWhile 7) (Newline)))",
    "(Skip (ChainL1 (ChainL1 (FromStr) (Attempt (Between (Spaces) (Spaces) (Tok \"*\")))) (Attempt (Between (Spaces) (Spaces) (OneOf \"+-\")))) (Tok \";\"))",
    "(Between (Tok \"\\\"\") (Tok \"\\\"\") (RecogRange (Escaped \"\\\\\" (TakeWhile1 4) (OneOf \"nr\\\"\\\\\"))))",
    "(And (SepEndBy (Skip (And (TakeUntilByte \",;\") (Any)) (Seq (TakeUntilRange \";;\") (Range \";;\"))) (Skip (TakeFn \"bb\" 1) (Range \"bb\"))) (Crlf))",
    "(Seq (Opt (Recog (Tok \"\\xc3\\xa9\"))) (Or (Recog (Range \"0b\")) (SepBy1 (Range \"\\xc3\\xa911\") (Skip (TakeUntilBytes \",10a\") (Str \",10a\")))) (Tok \";\"))",
    "(And (Dispatch (Count 1 (TakeWhile1 0)) (StrCmp \"0x\") (Seq (StrCmp \"bb;\") (Str \",,\") (Take 4) (StrCmp \"a;\") (TakeWhile1 7)) (Tok \"x\")) (Newline))",
    "(And (Between (SepEndBy1 (Range \",,\") (Take 2)) (Dispatch (Tokens \"x\") (TakeWhile1 6) (Range \"\\xf0\\x9d\\x84\\x9exa\\xc3\\xa9\") (SatMap 6)) (Attempt (Sat 7))) (Tok \";\"))",
    "(Seq (Skip (Expected (CountSink 2 1 (Seq (Range \"aab\") (Sat 3) (Tokens \"x0\\xf0\\x9d\\x84\\x9e0\") (Letter)))) (LookAhead (Map 1 (Tokens \";a\")))) (Newline))",
    "(Skip (Map 1 (Then 3 (Message (TakeWhile1 7)) (Or (Lower) (Digit)) (StructP (Unexpected) (Oct) (Crlf)))) (Sat 7))",
    "(And (With (AndThen 0 (Left (TakeWhile1 0))) (SepBy1 (Then 3 (Take 4) (TakeFn \"x\\xf0\\x9d\\x84\\x9e\" 1) (Newline)) (Attempt (SatMap 0)))) (Take 3))",
    "(Between (StructP (Range \"x\\xf0\\x9d\\x84\\x9ex0\") (Tokens \"b\") (TakeWhile1 2)) (Choice (Hex) (Str \"ab\\xf0\\x9d\\x84\\x9e\") (Tok \"x\") (Any) (TakeWhile1 2)) (Left (Position)))",
    "(Between (Or (AndThen 3 (TakeWhile1 0)) (RecogVal (NoneOf \"xx;\"))) (Opt (Attempt (NoPartial (TokensCmp \"x\")))) (Map 1 (RecogRange (StrCmp \"xx\\xc3\\xa9\"))))",
    "(Seq (SepEndBy1 (ChainL1 (FlatMap 1 (TokensCmp \"x\")) (ThenRef 0 (TakeWhile1 3) (Sat 5) (Range \",\"))) (And (Crlf) (FromStr))) (Tok \";\"))",
    "(And (SepEndBy1 (Or (AnySendSync (With (TakeWhile1 1) (TakeWhile 1))) (FlatMap 3 (FlatMap 3 (Tok \"\\xc3\\x9f\")))) (Recog (Sat 6))) (Sat 7))",
    "(Skip (Choice (Range \"x0\") (Or (Tok \"0\") (StrCmp \"x\")) (FnParser (Crlf))) (RecogVal (ThenRef 3 (FromStr) (NoneOf \"111\") (Tokens \",,\\xc3\\x9f\"))))",
    "(Seq (Opaque (OneOf \";;0\")) (RecogRange (Unexpected)) (Choice (NoneOf \",b\") (Sat 1) (Tokens \"a\\xf0\\x9d\\x84\\x9e,\") (StrCmp \"\\xc3\\xa9a\")) (Str \"\\xc3\\x9f;;\") (SkipCount 1 (Upper)))",
    "(With (Choice (Recog (Position)) (RecogVal (FromStr)) (SepBy1 (Sat 5) (TakeWhile1 5)) (FromStr) (RecogVal (Str \";;;\"))) (SatMap 7))",
    "(Seq (Seq (Many (TakeWhile1 5)) (RecogVal (StrCmp \"\\xc3\\x9f\\xc3\\x9fx\")) (Lazy (StrCmp \"xa\")) (FlatMap 2 (TakeWhile1 2)) (Many1 (Sat 0))) (TakeWhile1 5))",
    "(And (Seq (Recog (TakeWhile1 7)) (AndThen 1 (Str \"b\")) (StructP (Tokens \"aa\") (Sat 7) (Tok \"x\")) (Many (Tokens \";a0a\"))) (Range \"0;\"))",
    "(ThenRef 0 (AndThen 0 (FlatMap 3 (Tokens \"0\"))) (Attempt (Or (StrCmp \"\\xc3\\xa9\") (Range \";\"))) (AndThen 0 (With (Sat 4) (OneOf \"\\x0d;;\"))))",
    "(Map 1 (Or (Seq (OneOf \"xa\") (SatMap 4)) (StructP (Silent (SatMap 7)) (NoneOf \"\\xc3\\xa9;\") (Or (Any) (Tok \"\\xf0\\x9d\\x84\\x9e\")))))",
    "(Seq (Tab) (ThenRef 0 (With (Tok \"\\x0d\") (Range \"bb\")) (Count 3 (Oct)) (ChainR1 (Sat 6) (Range \"0 \"))) (Sat 1))",
    "(Skip (SepEndBy1 (Between (RecogRange (Crlf)) (Any) (Or (Range \";;;\") (SatMap 4))) (Silent (Upper))) (AlphaNum))",
    "(Seq (ThenPartial 2 (Left (ParserM (Range \",\"))) (AndThen 2 (ThenPartial 0 (Sat 3) (Sat 7) (Tokens \",0\"))) (Range \"x\")) (Crlf))",
    "(FlatMap 3 (Dispatch (Lower) (ThenPartial 3 (TokensCmp \"0\") (NoneOf \",\") (Str \"\\x0aa;\")) (NoPartial (Range \"\\xf0\\x9d\\x84\\x9e\")) (TakeUntil (Attempt (Range \"a,a\")))))",
];
