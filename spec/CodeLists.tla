----------------------------- MODULE CodeLists -----------------------------
(***************************************************************************)
(* The two fixed code lists: ISO 639-2/B language codes (all 486, without   *)
(* the local use range) and the JEL classification (sections of two and    *)
(* classes of three characters).                                           *)
(***************************************************************************)
LanguageCodes == {
  <<97, 97, 114>>, <<97, 98, 107>>, <<97, 99, 101>>, <<97, 99, 104>>, <<97, 100, 97>>,
  <<97, 100, 121>>, <<97, 102, 97>>, <<97, 102, 104>>, <<97, 102, 114>>, <<97, 105, 110>>,
  <<97, 107, 97>>, <<97, 107, 107>>, <<97, 108, 98>>, <<97, 108, 101>>, <<97, 108, 103>>,
  <<97, 108, 116>>, <<97, 109, 104>>, <<97, 110, 103>>, <<97, 110, 112>>, <<97, 112, 97>>,
  <<97, 114, 97>>, <<97, 114, 99>>, <<97, 114, 103>>, <<97, 114, 109>>, <<97, 114, 110>>,
  <<97, 114, 112>>, <<97, 114, 116>>, <<97, 114, 119>>, <<97, 115, 109>>, <<97, 115, 116>>,
  <<97, 116, 104>>, <<97, 117, 115>>, <<97, 118, 97>>, <<97, 118, 101>>, <<97, 119, 97>>,
  <<97, 121, 109>>, <<97, 122, 101>>, <<98, 97, 100>>, <<98, 97, 105>>, <<98, 97, 107>>,
  <<98, 97, 108>>, <<98, 97, 109>>, <<98, 97, 110>>, <<98, 97, 113>>, <<98, 97, 115>>,
  <<98, 97, 116>>, <<98, 101, 106>>, <<98, 101, 108>>, <<98, 101, 109>>, <<98, 101, 110>>,
  <<98, 101, 114>>, <<98, 104, 111>>, <<98, 105, 104>>, <<98, 105, 107>>, <<98, 105, 110>>,
  <<98, 105, 115>>, <<98, 108, 97>>, <<98, 110, 116>>, <<98, 111, 115>>, <<98, 114, 97>>,
  <<98, 114, 101>>, <<98, 116, 107>>, <<98, 117, 97>>, <<98, 117, 103>>, <<98, 117, 108>>,
  <<98, 117, 114>>, <<98, 121, 110>>, <<99, 97, 100>>, <<99, 97, 105>>, <<99, 97, 114>>,
  <<99, 97, 116>>, <<99, 97, 117>>, <<99, 101, 98>>, <<99, 101, 108>>, <<99, 104, 97>>,
  <<99, 104, 98>>, <<99, 104, 101>>, <<99, 104, 103>>, <<99, 104, 105>>, <<99, 104, 107>>,
  <<99, 104, 109>>, <<99, 104, 110>>, <<99, 104, 111>>, <<99, 104, 112>>, <<99, 104, 114>>,
  <<99, 104, 117>>, <<99, 104, 118>>, <<99, 104, 121>>, <<99, 109, 99>>, <<99, 110, 114>>,
  <<99, 111, 112>>, <<99, 111, 114>>, <<99, 111, 115>>, <<99, 112, 101>>, <<99, 112, 102>>,
  <<99, 112, 112>>, <<99, 114, 101>>, <<99, 114, 104>>, <<99, 114, 112>>, <<99, 115, 98>>,
  <<99, 117, 115>>, <<99, 122, 101>>, <<100, 97, 107>>, <<100, 97, 110>>, <<100, 97, 114>>,
  <<100, 97, 121>>, <<100, 101, 108>>, <<100, 101, 110>>, <<100, 103, 114>>, <<100, 105, 110>>,
  <<100, 105, 118>>, <<100, 111, 105>>, <<100, 114, 97>>, <<100, 115, 98>>, <<100, 117, 97>>,
  <<100, 117, 109>>, <<100, 117, 116>>, <<100, 121, 117>>, <<100, 122, 111>>, <<101, 102, 105>>,
  <<101, 103, 121>>, <<101, 107, 97>>, <<101, 108, 120>>, <<101, 110, 103>>, <<101, 110, 109>>,
  <<101, 112, 111>>, <<101, 115, 116>>, <<101, 119, 101>>, <<101, 119, 111>>, <<102, 97, 110>>,
  <<102, 97, 111>>, <<102, 97, 116>>, <<102, 105, 106>>, <<102, 105, 108>>, <<102, 105, 110>>,
  <<102, 105, 117>>, <<102, 111, 110>>, <<102, 114, 101>>, <<102, 114, 109>>, <<102, 114, 111>>,
  <<102, 114, 114>>, <<102, 114, 115>>, <<102, 114, 121>>, <<102, 117, 108>>, <<102, 117, 114>>,
  <<103, 97, 97>>, <<103, 97, 121>>, <<103, 98, 97>>, <<103, 101, 109>>, <<103, 101, 111>>,
  <<103, 101, 114>>, <<103, 101, 122>>, <<103, 105, 108>>, <<103, 108, 97>>, <<103, 108, 101>>,
  <<103, 108, 103>>, <<103, 108, 118>>, <<103, 109, 104>>, <<103, 111, 104>>, <<103, 111, 110>>,
  <<103, 111, 114>>, <<103, 111, 116>>, <<103, 114, 98>>, <<103, 114, 99>>, <<103, 114, 101>>,
  <<103, 114, 110>>, <<103, 115, 119>>, <<103, 117, 106>>, <<103, 119, 105>>, <<104, 97, 105>>,
  <<104, 97, 116>>, <<104, 97, 117>>, <<104, 97, 119>>, <<104, 101, 98>>, <<104, 101, 114>>,
  <<104, 105, 108>>, <<104, 105, 109>>, <<104, 105, 110>>, <<104, 105, 116>>, <<104, 109, 110>>,
  <<104, 109, 111>>, <<104, 114, 118>>, <<104, 115, 98>>, <<104, 117, 110>>, <<104, 117, 112>>,
  <<105, 98, 97>>, <<105, 98, 111>>, <<105, 99, 101>>, <<105, 100, 111>>, <<105, 105, 105>>,
  <<105, 106, 111>>, <<105, 107, 117>>, <<105, 108, 101>>, <<105, 108, 111>>, <<105, 110, 97>>,
  <<105, 110, 99>>, <<105, 110, 100>>, <<105, 110, 101>>, <<105, 110, 104>>, <<105, 112, 107>>,
  <<105, 114, 97>>, <<105, 114, 111>>, <<105, 116, 97>>, <<106, 97, 118>>, <<106, 98, 111>>,
  <<106, 112, 110>>, <<106, 112, 114>>, <<106, 114, 98>>, <<107, 97, 97>>, <<107, 97, 98>>,
  <<107, 97, 99>>, <<107, 97, 108>>, <<107, 97, 109>>, <<107, 97, 110>>, <<107, 97, 114>>,
  <<107, 97, 115>>, <<107, 97, 117>>, <<107, 97, 119>>, <<107, 97, 122>>, <<107, 98, 100>>,
  <<107, 104, 97>>, <<107, 104, 105>>, <<107, 104, 109>>, <<107, 104, 111>>, <<107, 105, 107>>,
  <<107, 105, 110>>, <<107, 105, 114>>, <<107, 109, 98>>, <<107, 111, 107>>, <<107, 111, 109>>,
  <<107, 111, 110>>, <<107, 111, 114>>, <<107, 111, 115>>, <<107, 112, 101>>, <<107, 114, 99>>,
  <<107, 114, 108>>, <<107, 114, 111>>, <<107, 114, 117>>, <<107, 117, 97>>, <<107, 117, 109>>,
  <<107, 117, 114>>, <<107, 117, 116>>, <<108, 97, 100>>, <<108, 97, 104>>, <<108, 97, 109>>,
  <<108, 97, 111>>, <<108, 97, 116>>, <<108, 97, 118>>, <<108, 101, 122>>, <<108, 105, 109>>,
  <<108, 105, 110>>, <<108, 105, 116>>, <<108, 111, 108>>, <<108, 111, 122>>, <<108, 116, 122>>,
  <<108, 117, 97>>, <<108, 117, 98>>, <<108, 117, 103>>, <<108, 117, 105>>, <<108, 117, 110>>,
  <<108, 117, 111>>, <<108, 117, 115>>, <<109, 97, 99>>, <<109, 97, 100>>, <<109, 97, 103>>,
  <<109, 97, 104>>, <<109, 97, 105>>, <<109, 97, 107>>, <<109, 97, 108>>, <<109, 97, 110>>,
  <<109, 97, 111>>, <<109, 97, 112>>, <<109, 97, 114>>, <<109, 97, 115>>, <<109, 97, 121>>,
  <<109, 100, 102>>, <<109, 100, 114>>, <<109, 101, 110>>, <<109, 103, 97>>, <<109, 105, 99>>,
  <<109, 105, 110>>, <<109, 105, 115>>, <<109, 107, 104>>, <<109, 108, 103>>, <<109, 108, 116>>,
  <<109, 110, 99>>, <<109, 110, 105>>, <<109, 110, 111>>, <<109, 111, 104>>, <<109, 111, 110>>,
  <<109, 111, 115>>, <<109, 117, 108>>, <<109, 117, 110>>, <<109, 117, 115>>, <<109, 119, 108>>,
  <<109, 119, 114>>, <<109, 121, 110>>, <<109, 121, 118>>, <<110, 97, 104>>, <<110, 97, 105>>,
  <<110, 97, 112>>, <<110, 97, 117>>, <<110, 97, 118>>, <<110, 98, 108>>, <<110, 100, 101>>,
  <<110, 100, 111>>, <<110, 100, 115>>, <<110, 101, 112>>, <<110, 101, 119>>, <<110, 105, 97>>,
  <<110, 105, 99>>, <<110, 105, 117>>, <<110, 110, 111>>, <<110, 111, 98>>, <<110, 111, 103>>,
  <<110, 111, 110>>, <<110, 111, 114>>, <<110, 113, 111>>, <<110, 115, 111>>, <<110, 117, 98>>,
  <<110, 119, 99>>, <<110, 121, 97>>, <<110, 121, 109>>, <<110, 121, 110>>, <<110, 121, 111>>,
  <<110, 122, 105>>, <<111, 99, 105>>, <<111, 106, 105>>, <<111, 114, 105>>, <<111, 114, 109>>,
  <<111, 115, 97>>, <<111, 115, 115>>, <<111, 116, 97>>, <<111, 116, 111>>, <<112, 97, 97>>,
  <<112, 97, 103>>, <<112, 97, 108>>, <<112, 97, 109>>, <<112, 97, 110>>, <<112, 97, 112>>,
  <<112, 97, 117>>, <<112, 101, 111>>, <<112, 101, 114>>, <<112, 104, 105>>, <<112, 104, 110>>,
  <<112, 108, 105>>, <<112, 111, 108>>, <<112, 111, 110>>, <<112, 111, 114>>, <<112, 114, 97>>,
  <<112, 114, 111>>, <<112, 117, 115>>, <<113, 117, 101>>, <<114, 97, 106>>, <<114, 97, 112>>,
  <<114, 97, 114>>, <<114, 111, 97>>, <<114, 111, 104>>, <<114, 111, 109>>, <<114, 117, 109>>,
  <<114, 117, 110>>, <<114, 117, 112>>, <<114, 117, 115>>, <<115, 97, 100>>, <<115, 97, 103>>,
  <<115, 97, 104>>, <<115, 97, 105>>, <<115, 97, 108>>, <<115, 97, 109>>, <<115, 97, 110>>,
  <<115, 97, 115>>, <<115, 97, 116>>, <<115, 99, 110>>, <<115, 99, 111>>, <<115, 101, 108>>,
  <<115, 101, 109>>, <<115, 103, 97>>, <<115, 103, 110>>, <<115, 104, 110>>, <<115, 105, 100>>,
  <<115, 105, 110>>, <<115, 105, 111>>, <<115, 105, 116>>, <<115, 108, 97>>, <<115, 108, 111>>,
  <<115, 108, 118>>, <<115, 109, 97>>, <<115, 109, 101>>, <<115, 109, 105>>, <<115, 109, 106>>,
  <<115, 109, 110>>, <<115, 109, 111>>, <<115, 109, 115>>, <<115, 110, 97>>, <<115, 110, 100>>,
  <<115, 110, 107>>, <<115, 111, 103>>, <<115, 111, 109>>, <<115, 111, 110>>, <<115, 111, 116>>,
  <<115, 112, 97>>, <<115, 114, 100>>, <<115, 114, 110>>, <<115, 114, 112>>, <<115, 114, 114>>,
  <<115, 115, 97>>, <<115, 115, 119>>, <<115, 117, 107>>, <<115, 117, 110>>, <<115, 117, 115>>,
  <<115, 117, 120>>, <<115, 119, 97>>, <<115, 119, 101>>, <<115, 121, 99>>, <<115, 121, 114>>,
  <<116, 97, 104>>, <<116, 97, 105>>, <<116, 97, 109>>, <<116, 97, 116>>, <<116, 101, 108>>,
  <<116, 101, 109>>, <<116, 101, 114>>, <<116, 101, 116>>, <<116, 103, 107>>, <<116, 103, 108>>,
  <<116, 104, 97>>, <<116, 105, 98>>, <<116, 105, 103>>, <<116, 105, 114>>, <<116, 105, 118>>,
  <<116, 107, 108>>, <<116, 108, 104>>, <<116, 108, 105>>, <<116, 109, 104>>, <<116, 111, 103>>,
  <<116, 111, 110>>, <<116, 112, 105>>, <<116, 115, 105>>, <<116, 115, 110>>, <<116, 115, 111>>,
  <<116, 117, 107>>, <<116, 117, 109>>, <<116, 117, 112>>, <<116, 117, 114>>, <<116, 117, 116>>,
  <<116, 118, 108>>, <<116, 119, 105>>, <<116, 121, 118>>, <<117, 100, 109>>, <<117, 103, 97>>,
  <<117, 105, 103>>, <<117, 107, 114>>, <<117, 109, 98>>, <<117, 110, 100>>, <<117, 114, 100>>,
  <<117, 122, 98>>, <<118, 97, 105>>, <<118, 101, 110>>, <<118, 105, 101>>, <<118, 111, 108>>,
  <<118, 111, 116>>, <<119, 97, 107>>, <<119, 97, 108>>, <<119, 97, 114>>, <<119, 97, 115>>,
  <<119, 101, 108>>, <<119, 101, 110>>, <<119, 108, 110>>, <<119, 111, 108>>, <<120, 97, 108>>,
  <<120, 104, 111>>, <<121, 97, 111>>, <<121, 97, 112>>, <<121, 105, 100>>, <<121, 111, 114>>,
  <<121, 112, 107>>, <<122, 97, 112>>, <<122, 98, 108>>, <<122, 101, 110>>, <<122, 103, 104>>,
  <<122, 104, 97>>, <<122, 110, 100>>, <<122, 117, 108>>, <<122, 117, 110>>, <<122, 120, 120>>,
  <<122, 122, 97>>}
JelCodes == {
  <<65, 48>>, <<65, 48, 48>>, <<65, 49>>, <<65, 49, 48>>, <<65, 49, 49>>, <<65, 49, 50>>,
  <<65, 49, 51>>, <<65, 49, 52>>, <<65, 49, 57>>, <<65, 50>>, <<65, 50, 48>>, <<65, 50, 49>>,
  <<65, 50, 50>>, <<65, 50, 51>>, <<65, 50, 57>>, <<65, 51>>, <<65, 51, 48>>, <<65, 51, 49>>,
  <<65, 51, 50>>, <<65, 51, 51>>, <<65, 51, 57>>, <<66, 48>>, <<66, 48, 48>>, <<66, 49>>,
  <<66, 49, 48>>, <<66, 49, 49>>, <<66, 49, 50>>, <<66, 49, 51>>, <<66, 49, 52>>, <<66, 49, 53>>,
  <<66, 49, 54>>, <<66, 49, 55>>, <<66, 49, 57>>, <<66, 50>>, <<66, 50, 48>>, <<66, 50, 49>>,
  <<66, 50, 50>>, <<66, 50, 51>>, <<66, 50, 52>>, <<66, 50, 53>>, <<66, 50, 54>>, <<66, 50, 55>>,
  <<66, 50, 57>>, <<66, 51>>, <<66, 51, 48>>, <<66, 51, 49>>, <<66, 51, 50>>, <<66, 52>>,
  <<66, 52, 48>>, <<66, 52, 49>>, <<66, 52, 57>>, <<66, 53>>, <<66, 53, 48>>, <<66, 53, 49>>,
  <<66, 53, 50>>, <<66, 53, 51>>, <<66, 53, 52>>, <<66, 53, 53>>, <<66, 53, 57>>, <<67, 48>>,
  <<67, 48, 48>>, <<67, 48, 49>>, <<67, 48, 50>>, <<67, 49>>, <<67, 49, 48>>, <<67, 49, 49>>,
  <<67, 49, 50>>, <<67, 49, 51>>, <<67, 49, 52>>, <<67, 49, 53>>, <<67, 49, 56>>, <<67, 49, 57>>,
  <<67, 50>>, <<67, 50, 48>>, <<67, 50, 49>>, <<67, 50, 50>>, <<67, 50, 51>>, <<67, 50, 52>>,
  <<67, 50, 53>>, <<67, 50, 54>>, <<67, 50, 57>>, <<67, 51>>, <<67, 51, 48>>, <<67, 51, 49>>,
  <<67, 51, 50>>, <<67, 51, 51>>, <<67, 51, 52>>, <<67, 51, 53>>, <<67, 51, 54>>, <<67, 51, 56>>,
  <<67, 51, 57>>, <<67, 52>>, <<67, 52, 48>>, <<67, 52, 49>>, <<67, 52, 50>>, <<67, 52, 51>>,
  <<67, 52, 52>>, <<67, 52, 53>>, <<67, 52, 54>>, <<67, 52, 57>>, <<67, 53>>, <<67, 53, 48>>,
  <<67, 53, 49>>, <<67, 53, 50>>, <<67, 53, 51>>, <<67, 53, 52>>, <<67, 53, 53>>, <<67, 53, 55>>,
  <<67, 53, 56>>, <<67, 53, 57>>, <<67, 54>>, <<67, 54, 48>>, <<67, 54, 49>>, <<67, 54, 50>>,
  <<67, 54, 51>>, <<67, 54, 53>>, <<67, 54, 55>>, <<67, 54, 56>>, <<67, 54, 57>>, <<67, 55>>,
  <<67, 55, 48>>, <<67, 55, 49>>, <<67, 55, 50>>, <<67, 55, 51>>, <<67, 55, 56>>, <<67, 55, 57>>,
  <<67, 56>>, <<67, 56, 48>>, <<67, 56, 49>>, <<67, 56, 50>>, <<67, 56, 51>>, <<67, 56, 55>>,
  <<67, 56, 56>>, <<67, 56, 57>>, <<67, 57>>, <<67, 57, 48>>, <<67, 57, 49>>, <<67, 57, 50>>,
  <<67, 57, 51>>, <<67, 57, 57>>, <<68, 48>>, <<68, 48, 48>>, <<68, 48, 49>>, <<68, 48, 50>>,
  <<68, 48, 51>>, <<68, 48, 52>>, <<68, 49>>, <<68, 49, 48>>, <<68, 49, 49>>, <<68, 49, 50>>,
  <<68, 49, 51>>, <<68, 49, 52>>, <<68, 49, 53>>, <<68, 49, 54>>, <<68, 49, 56>>, <<68, 49, 57>>,
  <<68, 50>>, <<68, 50, 48>>, <<68, 50, 49>>, <<68, 50, 50>>, <<68, 50, 51>>, <<68, 50, 52>>,
  <<68, 50, 53>>, <<68, 50, 54>>, <<68, 50, 57>>, <<68, 51>>, <<68, 51, 48>>, <<68, 51, 49>>,
  <<68, 51, 51>>, <<68, 51, 57>>, <<68, 52>>, <<68, 52, 48>>, <<68, 52, 49>>, <<68, 52, 50>>,
  <<68, 52, 51>>, <<68, 52, 52>>, <<68, 52, 53>>, <<68, 52, 54>>, <<68, 52, 55>>, <<68, 52, 57>>,
  <<68, 53>>, <<68, 53, 48>>, <<68, 53, 49>>, <<68, 53, 50>>, <<68, 53, 51>>, <<68, 53, 55>>,
  <<68, 53, 56>>, <<68, 53, 57>>, <<68, 54>>, <<68, 54, 48>>, <<68, 54, 49>>, <<68, 54, 50>>,
  <<68, 54, 51>>, <<68, 54, 52>>, <<68, 54, 57>>, <<68, 55>>, <<68, 55, 48>>, <<68, 55, 49>>,
  <<68, 55, 50>>, <<68, 55, 51>>, <<68, 55, 52>>, <<68, 55, 56>>, <<68, 55, 57>>, <<68, 56>>,
  <<68, 56, 48>>, <<68, 56, 49>>, <<68, 56, 50>>, <<68, 56, 51>>, <<68, 56, 52>>, <<68, 56, 53>>,
  <<68, 56, 54>>, <<68, 56, 55>>, <<68, 56, 57>>, <<68, 57>>, <<68, 57, 48>>, <<68, 57, 49>>,
  <<68, 57, 50>>, <<69, 48>>, <<69, 48, 48>>, <<69, 48, 49>>, <<69, 48, 50>>, <<69, 48, 51>>,
  <<69, 49>>, <<69, 49, 48>>, <<69, 49, 49>>, <<69, 49, 50>>, <<69, 49, 51>>, <<69, 49, 52>>,
  <<69, 49, 54>>, <<69, 49, 55>>, <<69, 49, 57>>, <<69, 50>>, <<69, 50, 48>>, <<69, 50, 49>>,
  <<69, 50, 50>>, <<69, 50, 51>>, <<69, 50, 52>>, <<69, 50, 53>>, <<69, 50, 54>>, <<69, 50, 55>>,
  <<69, 50, 57>>, <<69, 51>>, <<69, 51, 48>>, <<69, 51, 49>>, <<69, 51, 50>>, <<69, 51, 55>>,
  <<69, 51, 57>>, <<69, 52>>, <<69, 52, 48>>, <<69, 52, 49>>, <<69, 52, 50>>, <<69, 52, 51>>,
  <<69, 52, 52>>, <<69, 52, 55>>, <<69, 52, 57>>, <<69, 53>>, <<69, 53, 48>>, <<69, 53, 49>>,
  <<69, 53, 50>>, <<69, 53, 56>>, <<69, 53, 57>>, <<69, 54>>, <<69, 54, 48>>, <<69, 54, 49>>,
  <<69, 54, 50>>, <<69, 54, 51>>, <<69, 54, 52>>, <<69, 54, 53>>, <<69, 54, 54>>, <<69, 54, 57>>,
  <<69, 55>>, <<69, 55, 48>>, <<69, 55, 49>>, <<70, 48>>, <<70, 48, 48>>, <<70, 48, 49>>,
  <<70, 48, 50>>, <<70, 49>>, <<70, 49, 48>>, <<70, 49, 49>>, <<70, 49, 50>>, <<70, 49, 51>>,
  <<70, 49, 52>>, <<70, 49, 53>>, <<70, 49, 54>>, <<70, 49, 55>>, <<70, 49, 56>>, <<70, 49, 57>>,
  <<70, 50>>, <<70, 50, 48>>, <<70, 50, 49>>, <<70, 50, 50>>, <<70, 50, 51>>, <<70, 50, 52>>,
  <<70, 50, 57>>, <<70, 51>>, <<70, 51, 48>>, <<70, 51, 49>>, <<70, 51, 50>>, <<70, 51, 51>>,
  <<70, 51, 52>>, <<70, 51, 53>>, <<70, 51, 54>>, <<70, 51, 55>>, <<70, 51, 56>>, <<70, 51, 57>>,
  <<70, 52>>, <<70, 52, 48>>, <<70, 52, 49>>, <<70, 52, 50>>, <<70, 52, 51>>, <<70, 52, 52>>,
  <<70, 52, 53>>, <<70, 52, 55>>, <<70, 52, 57>>, <<70, 53>>, <<70, 53, 48>>, <<70, 53, 49>>,
  <<70, 53, 50>>, <<70, 53, 51>>, <<70, 53, 52>>, <<70, 53, 53>>, <<70, 53, 57>>, <<70, 54>>,
  <<70, 54, 48>>, <<70, 54, 49>>, <<70, 54, 50>>, <<70, 54, 51>>, <<70, 54, 52>>, <<70, 54, 53>>,
  <<70, 54, 54>>, <<70, 54, 56>>, <<70, 54, 57>>, <<71, 48>>, <<71, 48, 48>>, <<71, 48, 49>>,
  <<71, 48, 50>>, <<71, 49>>, <<71, 49, 48>>, <<71, 49, 49>>, <<71, 49, 50>>, <<71, 49, 51>>,
  <<71, 49, 52>>, <<71, 49, 53>>, <<71, 49, 55>>, <<71, 49, 56>>, <<71, 49, 57>>, <<71, 50>>,
  <<71, 50, 48>>, <<71, 50, 49>>, <<71, 50, 50>>, <<71, 50, 51>>, <<71, 50, 52>>, <<71, 50, 56>>,
  <<71, 50, 57>>, <<71, 51>>, <<71, 51, 48>>, <<71, 51, 49>>, <<71, 51, 50>>, <<71, 51, 51>>,
  <<71, 51, 52>>, <<71, 51, 53>>, <<71, 51, 56>>, <<71, 51, 57>>, <<71, 52>>, <<71, 52, 48>>,
  <<71, 52, 49>>, <<71, 53>>, <<71, 53, 48>>, <<71, 53, 49>>, <<71, 53, 50>>, <<71, 53, 51>>,
  <<71, 53, 57>>, <<72, 48>>, <<72, 48, 48>>, <<72, 49>>, <<72, 49, 48>>, <<72, 49, 49>>,
  <<72, 49, 50>>, <<72, 49, 51>>, <<72, 49, 57>>, <<72, 50>>, <<72, 50, 48>>, <<72, 50, 49>>,
  <<72, 50, 50>>, <<72, 50, 51>>, <<72, 50, 52>>, <<72, 50, 53>>, <<72, 50, 54>>, <<72, 50, 55>>,
  <<72, 50, 57>>, <<72, 51>>, <<72, 51, 48>>, <<72, 51, 49>>, <<72, 51, 50>>, <<72, 51, 57>>,
  <<72, 52>>, <<72, 52, 48>>, <<72, 52, 49>>, <<72, 52, 50>>, <<72, 52, 51>>, <<72, 52, 52>>,
  <<72, 52, 57>>, <<72, 53>>, <<72, 53, 48>>, <<72, 53, 49>>, <<72, 53, 50>>, <<72, 53, 51>>,
  <<72, 53, 52>>, <<72, 53, 53>>, <<72, 53, 54>>, <<72, 53, 55>>, <<72, 53, 57>>, <<72, 54>>,
  <<72, 54, 48>>, <<72, 54, 49>>, <<72, 54, 50>>, <<72, 54, 51>>, <<72, 54, 56>>, <<72, 54, 57>>,
  <<72, 55>>, <<72, 55, 48>>, <<72, 55, 49>>, <<72, 55, 50>>, <<72, 55, 51>>, <<72, 55, 52>>,
  <<72, 55, 53>>, <<72, 55, 54>>, <<72, 55, 55>>, <<72, 55, 57>>, <<72, 56>>, <<72, 56, 48>>,
  <<72, 56, 49>>, <<72, 56, 50>>, <<72, 56, 51>>, <<72, 56, 52>>, <<72, 56, 55>>, <<72, 56, 57>>,
  <<73, 48>>, <<73, 48, 48>>, <<73, 49>>, <<73, 49, 48>>, <<73, 49, 49>>, <<73, 49, 50>>,
  <<73, 49, 51>>, <<73, 49, 52>>, <<73, 49, 53>>, <<73, 49, 56>>, <<73, 49, 57>>, <<73, 50>>,
  <<73, 50, 48>>, <<73, 50, 49>>, <<73, 50, 50>>, <<73, 50, 51>>, <<73, 50, 52>>, <<73, 50, 53>>,
  <<73, 50, 54>>, <<73, 50, 56>>, <<73, 50, 57>>, <<73, 51>>, <<73, 51, 48>>, <<73, 51, 49>>,
  <<73, 51, 50>>, <<73, 51, 56>>, <<73, 51, 57>>, <<74, 48>>, <<74, 48, 48>>, <<74, 48, 49>>,
  <<74, 48, 56>>, <<74, 49>>, <<74, 49, 48>>, <<74, 49, 49>>, <<74, 49, 50>>, <<74, 49, 51>>,
  <<74, 49, 52>>, <<74, 49, 53>>, <<74, 49, 54>>, <<74, 49, 55>>, <<74, 49, 56>>, <<74, 49, 57>>,
  <<74, 50>>, <<74, 50, 48>>, <<74, 50, 49>>, <<74, 50, 50>>, <<74, 50, 51>>, <<74, 50, 52>>,
  <<74, 50, 54>>, <<74, 50, 56>>, <<74, 50, 57>>, <<74, 51>>, <<74, 51, 48>>, <<74, 51, 49>>,
  <<74, 51, 50>>, <<74, 51, 51>>, <<74, 51, 56>>, <<74, 51, 57>>, <<74, 52>>, <<74, 52, 48>>,
  <<74, 52, 49>>, <<74, 52, 50>>, <<74, 52, 51>>, <<74, 52, 52>>, <<74, 52, 53>>, <<74, 52, 54>>,
  <<74, 52, 55>>, <<74, 52, 56>>, <<74, 52, 57>>, <<74, 53>>, <<74, 53, 48>>, <<74, 53, 49>>,
  <<74, 53, 50>>, <<74, 53, 51>>, <<74, 53, 52>>, <<74, 53, 56>>, <<74, 53, 57>>, <<74, 54>>,
  <<74, 54, 48>>, <<74, 54, 49>>, <<74, 54, 50>>, <<74, 54, 51>>, <<74, 54, 52>>, <<74, 54, 53>>,
  <<74, 54, 56>>, <<74, 54, 57>>, <<74, 55>>, <<74, 55, 48>>, <<74, 55, 49>>, <<74, 55, 56>>,
  <<74, 55, 57>>, <<74, 56>>, <<74, 56, 48>>, <<74, 56, 49>>, <<74, 56, 50>>, <<74, 56, 51>>,
  <<74, 56, 56>>, <<74, 56, 57>>, <<75, 48>>, <<75, 48, 48>>, <<75, 49>>, <<75, 49, 48>>,
  <<75, 49, 49>>, <<75, 49, 50>>, <<75, 49, 51>>, <<75, 49, 52>>, <<75, 49, 53>>, <<75, 49, 54>>,
  <<75, 49, 57>>, <<75, 50>>, <<75, 50, 48>>, <<75, 50, 49>>, <<75, 50, 50>>, <<75, 50, 51>>,
  <<75, 50, 52>>, <<75, 50, 53>>, <<75, 50, 57>>, <<75, 51>>, <<75, 51, 48>>, <<75, 51, 49>>,
  <<75, 51, 50>>, <<75, 51, 51>>, <<75, 51, 52>>, <<75, 51, 53>>, <<75, 51, 54>>, <<75, 51, 55>>,
  <<75, 51, 56>>, <<75, 51, 57>>, <<75, 52>>, <<75, 52, 48>>, <<75, 52, 49>>, <<75, 52, 50>>,
  <<75, 52, 57>>, <<76, 48>>, <<76, 48, 48>>, <<76, 49>>, <<76, 49, 48>>, <<76, 49, 49>>,
  <<76, 49, 50>>, <<76, 49, 51>>, <<76, 49, 52>>, <<76, 49, 53>>, <<76, 49, 54>>, <<76, 49, 55>>,
  <<76, 49, 57>>, <<76, 50>>, <<76, 50, 48>>, <<76, 50, 49>>, <<76, 50, 50>>, <<76, 50, 51>>,
  <<76, 50, 52>>, <<76, 50, 53>>, <<76, 50, 54>>, <<76, 50, 57>>, <<76, 51>>, <<76, 51, 48>>,
  <<76, 51, 49>>, <<76, 51, 50>>, <<76, 51, 51>>, <<76, 51, 56>>, <<76, 51, 57>>, <<76, 52>>,
  <<76, 52, 48>>, <<76, 52, 49>>, <<76, 52, 50>>, <<76, 52, 51>>, <<76, 52, 52>>, <<76, 52, 57>>,
  <<76, 53>>, <<76, 53, 48>>, <<76, 53, 49>>, <<76, 53, 50>>, <<76, 53, 51>>, <<76, 53, 57>>,
  <<76, 54>>, <<76, 54, 48>>, <<76, 54, 49>>, <<76, 54, 50>>, <<76, 54, 51>>, <<76, 54, 52>>,
  <<76, 54, 53>>, <<76, 54, 54>>, <<76, 54, 55>>, <<76, 54, 56>>, <<76, 54, 57>>, <<76, 55>>,
  <<76, 55, 48>>, <<76, 55, 49>>, <<76, 55, 50>>, <<76, 55, 51>>, <<76, 55, 52>>, <<76, 55, 56>>,
  <<76, 55, 57>>, <<76, 56>>, <<76, 56, 48>>, <<76, 56, 49>>, <<76, 56, 50>>, <<76, 56, 51>>,
  <<76, 56, 52>>, <<76, 56, 53>>, <<76, 56, 54>>, <<76, 56, 55>>, <<76, 56, 56>>, <<76, 56, 57>>,
  <<76, 57>>, <<76, 57, 48>>, <<76, 57, 49>>, <<76, 57, 50>>, <<76, 57, 51>>, <<76, 57, 52>>,
  <<76, 57, 53>>, <<76, 57, 54>>, <<76, 57, 55>>, <<76, 57, 56>>, <<76, 57, 57>>, <<77, 48>>,
  <<77, 48, 48>>, <<77, 49>>, <<77, 49, 48>>, <<77, 49, 49>>, <<77, 49, 50>>, <<77, 49, 51>>,
  <<77, 49, 52>>, <<77, 49, 53>>, <<77, 49, 54>>, <<77, 49, 57>>, <<77, 50>>, <<77, 50, 48>>,
  <<77, 50, 49>>, <<77, 50, 57>>, <<77, 51>>, <<77, 51, 48>>, <<77, 51, 49>>, <<77, 51, 55>>,
  <<77, 51, 56>>, <<77, 51, 57>>, <<77, 52>>, <<77, 52, 48>>, <<77, 52, 49>>, <<77, 52, 50>>,
  <<77, 52, 56>>, <<77, 52, 57>>, <<77, 53>>, <<77, 53, 48>>, <<77, 53, 49>>, <<77, 53, 50>>,
  <<77, 53, 51>>, <<77, 53, 52>>, <<77, 53, 53>>, <<77, 53, 57>>, <<78, 48>>, <<78, 48, 48>>,
  <<78, 48, 49>>, <<78, 49>>, <<78, 49, 48>>, <<78, 49, 49>>, <<78, 49, 50>>, <<78, 49, 51>>,
  <<78, 49, 52>>, <<78, 49, 53>>, <<78, 49, 54>>, <<78, 49, 55>>, <<78, 50>>, <<78, 50, 48>>,
  <<78, 50, 49>>, <<78, 50, 50>>, <<78, 50, 51>>, <<78, 50, 52>>, <<78, 50, 53>>, <<78, 50, 54>>,
  <<78, 50, 55>>, <<78, 51>>, <<78, 51, 48>>, <<78, 51, 49>>, <<78, 51, 50>>, <<78, 51, 51>>,
  <<78, 51, 52>>, <<78, 51, 53>>, <<78, 51, 54>>, <<78, 51, 55>>, <<78, 52>>, <<78, 52, 48>>,
  <<78, 52, 49>>, <<78, 52, 50>>, <<78, 52, 51>>, <<78, 52, 52>>, <<78, 52, 53>>, <<78, 52, 54>>,
  <<78, 52, 55>>, <<78, 53>>, <<78, 53, 48>>, <<78, 53, 49>>, <<78, 53, 50>>, <<78, 53, 51>>,
  <<78, 53, 52>>, <<78, 53, 53>>, <<78, 53, 54>>, <<78, 53, 55>>, <<78, 54>>, <<78, 54, 48>>,
  <<78, 54, 49>>, <<78, 54, 50>>, <<78, 54, 51>>, <<78, 54, 52>>, <<78, 54, 53>>, <<78, 54, 54>>,
  <<78, 54, 55>>, <<78, 55>>, <<78, 55, 48>>, <<78, 55, 49>>, <<78, 55, 50>>, <<78, 55, 51>>,
  <<78, 55, 52>>, <<78, 55, 53>>, <<78, 55, 54>>, <<78, 55, 55>>, <<78, 56>>, <<78, 56, 48>>,
  <<78, 56, 49>>, <<78, 56, 50>>, <<78, 56, 51>>, <<78, 56, 52>>, <<78, 56, 53>>, <<78, 56, 54>>,
  <<78, 56, 55>>, <<78, 57>>, <<78, 57, 48>>, <<78, 57, 49>>, <<78, 57, 50>>, <<78, 57, 51>>,
  <<78, 57, 52>>, <<78, 57, 53>>, <<78, 57, 54>>, <<78, 57, 55>>, <<79, 48>>, <<79, 48, 48>>,
  <<79, 49>>, <<79, 49, 48>>, <<79, 49, 49>>, <<79, 49, 50>>, <<79, 49, 51>>, <<79, 49, 52>>,
  <<79, 49, 53>>, <<79, 49, 54>>, <<79, 49, 55>>, <<79, 49, 56>>, <<79, 49, 57>>, <<79, 50>>,
  <<79, 50, 48>>, <<79, 50, 49>>, <<79, 50, 50>>, <<79, 50, 51>>, <<79, 50, 52>>, <<79, 50, 53>>,
  <<79, 50, 57>>, <<79, 51>>, <<79, 51, 48>>, <<79, 51, 49>>, <<79, 51, 50>>, <<79, 51, 51>>,
  <<79, 51, 52>>, <<79, 51, 53>>, <<79, 51, 54>>, <<79, 51, 56>>, <<79, 51, 57>>, <<79, 52>>,
  <<79, 52, 48>>, <<79, 52, 49>>, <<79, 52, 50>>, <<79, 52, 51>>, <<79, 52, 52>>, <<79, 52, 55>>,
  <<79, 52, 57>>, <<79, 53>>, <<79, 53, 48>>, <<79, 53, 49>>, <<79, 53, 50>>, <<79, 53, 51>>,
  <<79, 53, 52>>, <<79, 53, 53>>, <<79, 53, 54>>, <<79, 53, 55>>, <<80, 48>>, <<80, 48, 48>>,
  <<80, 49>>, <<80, 49, 48>>, <<80, 49, 49>>, <<80, 49, 50>>, <<80, 49, 51>>, <<80, 49, 52>>,
  <<80, 49, 54>>, <<80, 49, 55>>, <<80, 49, 56>>, <<80, 49, 57>>, <<80, 50>>, <<80, 50, 48>>,
  <<80, 50, 49>>, <<80, 50, 50>>, <<80, 50, 51>>, <<80, 50, 52>>, <<80, 50, 53>>, <<80, 50, 54>>,
  <<80, 50, 55>>, <<80, 50, 56>>, <<80, 50, 57>>, <<80, 51>>, <<80, 51, 48>>, <<80, 51, 49>>,
  <<80, 51, 50>>, <<80, 51, 51>>, <<80, 51, 52>>, <<80, 51, 53>>, <<80, 51, 54>>, <<80, 51, 55>>,
  <<80, 51, 57>>, <<80, 52>>, <<80, 52, 48>>, <<80, 52, 49>>, <<80, 52, 50>>, <<80, 52, 51>>,
  <<80, 52, 52>>, <<80, 52, 53>>, <<80, 52, 54>>, <<80, 52, 55>>, <<80, 52, 56>>, <<80, 52, 57>>,
  <<80, 53>>, <<80, 53, 48>>, <<80, 53, 49>>, <<80, 53, 50>>, <<80, 53, 57>>, <<81, 48>>,
  <<81, 48, 48>>, <<81, 48, 49>>, <<81, 48, 50>>, <<81, 49>>, <<81, 49, 48>>, <<81, 49, 49>>,
  <<81, 49, 50>>, <<81, 49, 51>>, <<81, 49, 52>>, <<81, 49, 53>>, <<81, 49, 54>>, <<81, 49, 55>>,
  <<81, 49, 56>>, <<81, 49, 57>>, <<81, 50>>, <<81, 50, 48>>, <<81, 50, 49>>, <<81, 50, 50>>,
  <<81, 50, 51>>, <<81, 50, 52>>, <<81, 50, 53>>, <<81, 50, 54>>, <<81, 50, 55>>, <<81, 50, 56>>,
  <<81, 50, 57>>, <<81, 51>>, <<81, 51, 48>>, <<81, 51, 49>>, <<81, 51, 50>>, <<81, 51, 51>>,
  <<81, 51, 52>>, <<81, 51, 53>>, <<81, 51, 55>>, <<81, 51, 56>>, <<81, 51, 57>>, <<81, 52>>,
  <<81, 52, 48>>, <<81, 52, 49>>, <<81, 52, 50>>, <<81, 52, 51>>, <<81, 52, 55>>, <<81, 52, 56>>,
  <<81, 52, 57>>, <<81, 53>>, <<81, 53, 48>>, <<81, 53, 49>>, <<81, 53, 50>>, <<81, 53, 51>>,
  <<81, 53, 52>>, <<81, 53, 53>>, <<81, 53, 54>>, <<81, 53, 55>>, <<81, 53, 56>>, <<81, 53, 57>>,
  <<82, 48>>, <<82, 48, 48>>, <<82, 49>>, <<82, 49, 48>>, <<82, 49, 49>>, <<82, 49, 50>>,
  <<82, 49, 51>>, <<82, 49, 52>>, <<82, 49, 53>>, <<82, 49, 57>>, <<82, 50>>, <<82, 50, 48>>,
  <<82, 50, 49>>, <<82, 50, 50>>, <<82, 50, 51>>, <<82, 50, 56>>, <<82, 50, 57>>, <<82, 51>>,
  <<82, 51, 48>>, <<82, 51, 49>>, <<82, 51, 50>>, <<82, 51, 51>>, <<82, 51, 56>>, <<82, 51, 57>>,
  <<82, 52>>, <<82, 52, 48>>, <<82, 52, 49>>, <<82, 52, 50>>, <<82, 52, 56>>, <<82, 52, 57>>,
  <<82, 53>>, <<82, 53, 48>>, <<82, 53, 49>>, <<82, 53, 50>>, <<82, 53, 51>>, <<82, 53, 56>>,
  <<82, 53, 57>>, <<89, 49>>, <<89, 49, 48>>, <<89, 50>>, <<89, 50, 48>>, <<89, 51>>,
  <<89, 51, 48>>, <<89, 52>>, <<89, 52, 48>>, <<89, 53>>, <<89, 53, 48>>, <<89, 54>>,
  <<89, 54, 48>>, <<89, 55>>, <<89, 55, 48>>, <<89, 56>>, <<89, 56, 48>>, <<89, 57>>,
  <<89, 57, 48>>, <<89, 57, 49>>, <<89, 57, 50>>, <<90, 48, 48>>, <<90, 49>>, <<90, 49, 48>>,
  <<90, 49, 49>>, <<90, 49, 50>>, <<90, 49, 51>>, <<90, 49, 56>>, <<90, 49, 57>>, <<90, 50>>,
  <<90, 50, 48>>, <<90, 50, 49>>, <<90, 50, 50>>, <<90, 50, 51>>, <<90, 50, 56>>, <<90, 50, 57>>,
  <<90, 51>>, <<90, 51, 48>>, <<90, 51, 49>>, <<90, 51, 50>>, <<90, 51, 51>>, <<90, 51, 56>>,
  <<90, 51, 57>>}
=============================================================================
