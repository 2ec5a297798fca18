// Table of Nix builtins. nixd generates it from the Nix libraries, which are not
// installed here; the names are those of Nix 2.2x, the documentation is dummy.
#include "nixf/Sema/PrimOpInfo.h"

std::map<std::string, nixf::PrimOpInfo> nixf::PrimOpsInfo{
    {"__add", {{"a0", "a1"}, 2, "Doc of __add.", false}},
    {"__addErrorContext", {{"a0", "a1"}, 2, "Doc of __addErrorContext.", false}},
    {"__all", {{"a0", "a1"}, 2, "Doc of __all.", false}},
    {"__any", {{"a0", "a1"}, 2, "Doc of __any.", false}},
    {"__appendContext", {{"a0", "a1"}, 2, "Doc of __appendContext.", false}},
    {"__attrNames", {{"a0"}, 1, "Doc of __attrNames.", false}},
    {"__attrValues", {{"a0"}, 1, "Doc of __attrValues.", false}},
    {"__bitAnd", {{"a0", "a1"}, 2, "Doc of __bitAnd.", false}},
    {"__bitOr", {{"a0", "a1"}, 2, "Doc of __bitOr.", false}},
    {"__bitXor", {{"a0", "a1"}, 2, "Doc of __bitXor.", false}},
    {"__catAttrs", {{"a0", "a1"}, 2, "Doc of __catAttrs.", false}},
    {"__ceil", {{"a0"}, 1, "Doc of __ceil.", false}},
    {"__compareVersions", {{"a0", "a1"}, 2, "Doc of __compareVersions.", false}},
    {"__concatLists", {{"a0"}, 1, "Doc of __concatLists.", false}},
    {"__concatMap", {{"a0", "a1"}, 2, "Doc of __concatMap.", false}},
    {"__concatStringsSep", {{"a0", "a1"}, 2, "Doc of __concatStringsSep.", false}},
    {"__convertHash", {{"a0"}, 1, "Doc of __convertHash.", false}},
    {"__deepSeq", {{"a0", "a1"}, 2, "Doc of __deepSeq.", false}},
    {"__div", {{"a0", "a1"}, 2, "Doc of __div.", false}},
    {"__elem", {{"a0", "a1"}, 2, "Doc of __elem.", false}},
    {"__elemAt", {{"a0", "a1"}, 2, "Doc of __elemAt.", false}},
    {"__fetchClosure", {{"a0"}, 1, "Doc of __fetchClosure.", false}},
    {"__fetchurl", {{"a0"}, 1, "Doc of __fetchurl.", false}},
    {"__filter", {{"a0", "a1"}, 2, "Doc of __filter.", false}},
    {"__filterSource", {{"a0", "a1"}, 2, "Doc of __filterSource.", false}},
    {"__findFile", {{"a0", "a1"}, 2, "Doc of __findFile.", false}},
    {"__flakeRefToString", {{"a0"}, 1, "Doc of __flakeRefToString.", false}},
    {"__floor", {{"a0"}, 1, "Doc of __floor.", false}},
    {"__foldl'", {{"a0", "a1", "a2"}, 3, "Doc of __foldl'.", false}},
    {"__fromJSON", {{"a0"}, 1, "Doc of __fromJSON.", false}},
    {"__functionArgs", {{"a0"}, 1, "Doc of __functionArgs.", false}},
    {"__genList", {{"a0", "a1"}, 2, "Doc of __genList.", false}},
    {"__genericClosure", {{"a0"}, 1, "Doc of __genericClosure.", false}},
    {"__getAttr", {{"a0", "a1"}, 2, "Doc of __getAttr.", false}},
    {"__getContext", {{"a0"}, 1, "Doc of __getContext.", false}},
    {"__getEnv", {{"a0"}, 1, "Doc of __getEnv.", false}},
    {"__getFlake", {{"a0"}, 1, "Doc of __getFlake.", false}},
    {"__groupBy", {{"a0", "a1"}, 2, "Doc of __groupBy.", false}},
    {"__hasAttr", {{"a0", "a1"}, 2, "Doc of __hasAttr.", false}},
    {"__hasContext", {{"a0"}, 1, "Doc of __hasContext.", false}},
    {"__hashFile", {{"a0", "a1"}, 2, "Doc of __hashFile.", false}},
    {"__hashString", {{"a0", "a1"}, 2, "Doc of __hashString.", false}},
    {"__head", {{"a0"}, 1, "Doc of __head.", false}},
    {"__intersectAttrs", {{"a0", "a1"}, 2, "Doc of __intersectAttrs.", false}},
    {"__isAttrs", {{"a0"}, 1, "Doc of __isAttrs.", false}},
    {"__isBool", {{"a0"}, 1, "Doc of __isBool.", false}},
    {"__isFloat", {{"a0"}, 1, "Doc of __isFloat.", false}},
    {"__isFunction", {{"a0"}, 1, "Doc of __isFunction.", false}},
    {"__isInt", {{"a0"}, 1, "Doc of __isInt.", false}},
    {"__isList", {{"a0"}, 1, "Doc of __isList.", false}},
    {"__isPath", {{"a0"}, 1, "Doc of __isPath.", false}},
    {"__isString", {{"a0"}, 1, "Doc of __isString.", false}},
    {"__length", {{"a0"}, 1, "Doc of __length.", false}},
    {"__lessThan", {{"a0", "a1"}, 2, "Doc of __lessThan.", false}},
    {"__listToAttrs", {{"a0"}, 1, "Doc of __listToAttrs.", false}},
    {"__mapAttrs", {{"a0", "a1"}, 2, "Doc of __mapAttrs.", false}},
    {"__match", {{"a0", "a1"}, 2, "Doc of __match.", false}},
    {"__mul", {{"a0", "a1"}, 2, "Doc of __mul.", false}},
    {"__outputOf", {{"a0", "a1"}, 2, "Doc of __outputOf.", false}},
    {"__parseDrvName", {{"a0"}, 1, "Doc of __parseDrvName.", false}},
    {"__parseFlakeRef", {{"a0"}, 1, "Doc of __parseFlakeRef.", false}},
    {"__partition", {{"a0", "a1"}, 2, "Doc of __partition.", false}},
    {"__path", {{"a0"}, 1, "Doc of __path.", false}},
    {"__pathExists", {{"a0"}, 1, "Doc of __pathExists.", false}},
    {"__readDir", {{"a0"}, 1, "Doc of __readDir.", false}},
    {"__readFile", {{"a0"}, 1, "Doc of __readFile.", false}},
    {"__readFileType", {{"a0"}, 1, "Doc of __readFileType.", false}},
    {"__replaceStrings", {{"a0", "a1", "a2"}, 3, "Doc of __replaceStrings.", false}},
    {"__seq", {{"a0", "a1"}, 2, "Doc of __seq.", false}},
    {"__sort", {{"a0", "a1"}, 2, "Doc of __sort.", false}},
    {"__split", {{"a0", "a1"}, 2, "Doc of __split.", false}},
    {"__splitVersion", {{"a0"}, 1, "Doc of __splitVersion.", false}},
    {"__storePath", {{"a0"}, 1, "Doc of __storePath.", false}},
    {"__stringLength", {{"a0"}, 1, "Doc of __stringLength.", false}},
    {"__sub", {{"a0", "a1"}, 2, "Doc of __sub.", false}},
    {"__substring", {{"a0", "a1", "a2"}, 3, "Doc of __substring.", false}},
    {"__tail", {{"a0"}, 1, "Doc of __tail.", false}},
    {"__toFile", {{"a0", "a1"}, 2, "Doc of __toFile.", false}},
    {"__toJSON", {{"a0"}, 1, "Doc of __toJSON.", false}},
    {"__toPath", {{"a0"}, 1, "Doc of __toPath.", false}},
    {"__toXML", {{"a0"}, 1, "Doc of __toXML.", false}},
    {"__trace", {{"a0", "a1"}, 2, "Doc of __trace.", false}},
    {"__tryEval", {{"a0"}, 1, "Doc of __tryEval.", false}},
    {"__typeOf", {{"a0"}, 1, "Doc of __typeOf.", false}},
    {"__unsafeDiscardStringContext", {{"a0"}, 1, "Doc of __unsafeDiscardStringContext.", false}},
    {"__unsafeGetAttrPos", {{"a0", "a1"}, 2, "Doc of __unsafeGetAttrPos.", false}},
    {"__warn", {{"a0", "a1"}, 2, "Doc of __warn.", false}},
    {"__zipAttrsWith", {{"a0", "a1"}, 2, "Doc of __zipAttrsWith.", false}},
    {"abort", {{"a0"}, 1, "Doc of abort.", false}},
    {"baseNameOf", {{"a0"}, 1, "Doc of baseNameOf.", false}},
    {"break", {{"a0"}, 1, "Doc of break.", false}},
    {"derivationStrict", {{"a0"}, 1, "Doc of derivationStrict.", false}},
    {"dirOf", {{"a0"}, 1, "Doc of dirOf.", false}},
    {"fetchGit", {{"a0"}, 1, "Doc of fetchGit.", false}},
    {"fetchMercurial", {{"a0"}, 1, "Doc of fetchMercurial.", false}},
    {"fetchTarball", {{"a0"}, 1, "Doc of fetchTarball.", false}},
    {"fetchFinalTree", {{"a0"}, 1, "Doc of fetchFinalTree.", true}},
    {"fetchTree", {{"a0"}, 1, "Doc of fetchTree.", false}},
    {"fromTOML", {{"a0"}, 1, "Doc of fromTOML.", false}},
    {"import", {{"a0"}, 1, "Doc of import.", false}},
    {"isNull", {{"a0"}, 1, "Doc of isNull.", false}},
    {"map", {{"a0", "a1"}, 2, "Doc of map.", false}},
    {"placeholder", {{"a0"}, 1, "Doc of placeholder.", false}},
    {"removeAttrs", {{"a0", "a1"}, 2, "Doc of removeAttrs.", false}},
    {"scopedImport", {{"a0", "a1"}, 2, "Doc of scopedImport.", false}},
    {"throw", {{"a0"}, 1, "Doc of throw.", false}},
    {"toString", {{"a0"}, 1, "Doc of toString.", false}},
};
