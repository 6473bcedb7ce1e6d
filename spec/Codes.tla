-------------------------------- MODULE Codes --------------------------------
(* The numeric and textual kind codes of the Sketchware format, as documented in the
   sketchware-data tables the crate refers to. Every table is written once, as a set of
   <<code, name>> pairs, and read in both directions. *)
EXTENDS Base

NameOf(tbl, code) == LET h == {p \in tbl : p[1] = code} IN IF h = {} THEN Bad ELSE Ok((CHOOSE p \in h : TRUE)[2])
CodeOf(tbl, name) == LET h == {p \in tbl : p[2] = name} IN IF h = {} THEN Bad ELSE Ok((CHOOSE p \in h : TRUE)[1])
Bijective(tbl) == \A p, q \in tbl : (p[1] = q[1] \/ p[2] = q[2]) => p = q

Components == {
  <<"1", "Intent">>, <<"2", "SharedPreferences">>, <<"3", "Calendar">>, <<"4", "Vibrator">>, <<"5", "Timer">>,
  <<"6", "FirebaseDatabase">>, <<"7", "Dialog">>, <<"8", "MediaPlayer">>, <<"9", "SoundPool">>, <<"10", "ObjectAnimator">>,
  <<"11", "Gyroscope">>, <<"12", "FirebaseAuth">>, <<"13", "InterstitialAd">>, <<"14", "FirebaseStorage">>, <<"15", "Camera">>,
  <<"16", "FilePicker">>, <<"17", "RequestNetwork">>, <<"18", "TextToSpeech">>, <<"19", "SpeechToText">>,
  <<"20", "BluetoothConnect">>, <<"21", "LocationManager">>}
ComponentsWithParam == {"SharedPreferences", "FirebaseDatabase", "FirebaseStorage", "FilePicker"}

EventTypes == {<<"1", "view">>, <<"2", "component">>, <<"3", "activity">>}

VarTypes == {<<"0", "Boolean">>, <<"1", "Integer">>, <<"2", "String">>, <<"3", "HashMap">>}

\* block type letter and, for lists, the type name
BlockTypes == {<<" ", "Regular">>, <<"b", "Boolean">>, <<"s", "String">>, <<"d", "Number">>, <<"v", "View">>, <<"p", "Component">>,
               <<"c", "OneNest">>, <<"e", "TwoNest">>, <<"f", "Ending">>}
ListTypes  == {<<"List String", "ListString">>, <<"List Number", "ListNumber">>}
TypedKinds == {"View", "Component"}     \* kinds that carry their own type name
BlockKind(type, tn) == IF type = "l" THEN NameOf(ListTypes, tn) ELSE NameOf(BlockTypes, type)
BlockLetter(kind) == IF kind \in {"ListString", "ListNumber"} THEN "l" ELSE CodeOf(BlockTypes, kind).v
BlockTypeName(kind, tn) == IF kind \in {"ListString", "ListNumber"} THEN CodeOf(ListTypes, kind).v ELSE IF kind \in TypedKinds THEN tn ELSE ""
BlockKinds == {p[2] : p \in BlockTypes \cup ListTypes}

\* categories by rgb
Categories == {
  <<<<238, 125, 22>>, "Variable">>, <<<<204, 91, 34>>, "List">>, <<<<225, 169, 42>>, "Control">>, <<<<92, 183, 34>>, "Operator">>,
  <<<<35, 185, 169>>, "Math">>, <<<<161, 136, 127>>, "File">>, <<<<74, 108, 212>>, "ViewFunc">>, <<<<252, 165, 226>>, "ComponentFunc">>,
  <<<<138, 85, 215>>, "MoreBlock">>}

\* view kinds; a scroll view's direction is part of its code
ViewCodes == {
  <<"0", "LinearLayout">>, <<"2", "ScrollView.Horizontal">>, <<"3", "Button">>, <<"4", "TextView">>, <<"5", "EditText">>, <<"6", "ImageView">>,
  <<"7", "WebView">>, <<"8", "ProgressBar">>, <<"9", "ListView">>, <<"10", "Spinner">>, <<"11", "CheckBox">>, <<"12", "ScrollView.Vertical">>,
  <<"13", "Switch">>, <<"14", "SeekBar">>, <<"15", "CalendarView">>, <<"16", "Fab">>, <<"17", "AdView">>, <<"18", "MapView">>}

\* enumerations of the data files
Enums == [
  choice  |-> {<<"0", "None">>, <<"1", "Single">>, <<"2", "Multi">>},
  spinner |-> {<<"0", "Dialog">>, <<"1", "Dropdown">>},
  lori    |-> {<<"1", "Vertical">>, <<"0", "Unspecified">>, <<"-1", "Horizontal">>},
  ime     |-> {<<"0", "Normal">>, <<"1", "None">>, <<"2", "Go">>, <<"3", "Search">>, <<"4", "Send">>, <<"5", "Next">>, <<"6", "Done">>},
  input   |-> {<<"8194", "NumberDecimal">>, <<"4098", "NumberSigned">>, <<"12290", "NumberSignedDecimal">>, <<"129", "Password">>, <<"3", "Phone">>, <<"1", "Text">>},
  tstyle  |-> {<<"0", "Normal">>, <<"1", "Bold">>, <<"2", "Italic">>, <<"3", "BoldItalic">>},
  ftype   |-> {<<"0", "Activity">>, <<"1", "CustomView">>, <<"2", "Drawer">>},
  kbd     |-> {<<"0", "Unspecified">>, <<"1", "Visible">>, <<"2", "Hidden">>},
  fori    |-> {<<"0", "Portrait">>, <<"1", "Landscape">>, <<"2", "Both">>},
  theme   |-> {<<"-1", "None">>, <<"0", "Default">>, <<"1", "Actionbar">>, <<"2", "Fullscreen">>}]
\* the one enumeration that is spelled out
ScaleTypes == {<<"CENTER", "Center">>, <<"FIT_XY", "FitXy">>, <<"FIT_START", "FitStart">>, <<"FIT_CENTER", "FitCenter">>, <<"FIT_END", "FitEnd">>,
               <<"CENTER_CROP", "CenterCrop">>, <<"CENTER_INSIDE", "CenterInside">>}

\* activity options: one bit each
Bit(n, b) == (n \div b) % 2 = 1
BoolStr(b) == IF b THEN "true" ELSE "false"
OptFlags(n) == [toolbar |-> BoolStr(Bit(n, 1)), fullscreen |-> BoolStr(Bit(n, 2)), drawer |-> BoolStr(Bit(n, 4)), fab |-> BoolStr(Bit(n, 8))]
OptCode(t, f, d, a) == (IF t = "true" THEN 1 ELSE 0) + (IF f = "true" THEN 2 ELSE 0) + (IF d = "true" THEN 4 ELSE 0) + (IF a = "true" THEN 8 ELSE 0)

-----------------------------------------------------------------------------
(* Dates: "yyyyMMddHHmmss" in UTC against days since 1970-01-01 and seconds of the day. *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
\* days from 0000-03-01 to y-m-d in the proleptic Gregorian calendar, shifted to 1970-01-01
DaysOf(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400          \* (rounds down, also below zero)
      yoe == yy - era * 400
      mp == (m + 9) % 12
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
CivilOf(z) ==   \* the inverse
  LET zz == z + 719468
      era == zz \div 146097
      doe == zz - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN <<yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, d>>
\* text -> Ok([days, secs]); anything that is not fourteen digits naming an instant is malformed
ReadDate(s) ==
  IF ~(Len(s) = 14 /\ IsDigits(s)) THEN Bad ELSE
  LET y == ToNat(SubSeq(s, 1, 4))  mo == ToNat(SubSeq(s, 5, 6))  d == ToNat(SubSeq(s, 7, 8))
      h == ToNat(SubSeq(s, 9, 10)) mi == ToNat(SubSeq(s, 11, 12)) se == ToNat(SubSeq(s, 13, 14))
  IN IF ~(mo \in 1 .. 12) \/ h > 23 \/ mi > 59 \/ se > 59 THEN Bad
     ELSE IF ~(d \in 1 .. MonthLen(y, mo)) THEN Bad
     ELSE Ok([days |-> ToString(DaysOf(y, mo, d)), secs |-> ToString(h * 3600 + mi * 60 + se)])
\* texts whose treatment is left open: more than fourteen digits, or signs among the digits
DateLike(s) == Len(s) > 14 \/ (\E i \in 1 .. Len(s) : Ch(s, i) = "+")
WriteDate(days, secs) ==
  LET c == CivilOf(days) IN Pad(ToString(c[1]), 4) \o Pad(ToString(c[2]), 2) \o Pad(ToString(c[3]), 2)
     \o Pad(ToString(secs \div 3600), 2) \o Pad(ToString((secs \div 60) % 60), 2) \o Pad(ToString(secs % 60), 2)
=============================================================================
