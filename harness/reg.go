package readability

var vxHarnesses = map[string]func(){
	"vhCrashAttr":         vhCrashAttr,
	"vhCrashJSONLD":       vhCrashJSONLD,
	"vhCrashShape":        vhCrashShape,
	"vhCrashBytes":        vhCrashBytes,
	"vhCrashOpts":         vhCrashOpts,
	"vhCrashReaderable":   vhCrashReaderable,
	"vhCrashEmbeds":       vhCrashEmbeds,
	"vhCrashPair":         vhCrashPair,
	"vhCrashData":         vhCrashData,
	"vhTreeStep":          vhTreeStep,
	"vhTreeHistory":       vhTreeHistory,
	"vhTextRound":         vhTextRound,
	"vhAttrRound":         vhAttrRound,
	"vhDecodeNamed":       vhDecodeNamed,
	"vhDecodeNumeric":     vhDecodeNumeric,
	"vhDocRound":          vhDocRound,
	"vhNesting":           vhNesting,
	"vhRawText":           vhRawText,
	"vhVoid":              vhVoid,
	"vhBareText":          vhBareText,
	"vhUnicode":           vhUnicode,
	"vhAttrs":             vhAttrs,
	"vhSizes":             vhSizes,
	"vhTextMeets":         vhTextMeets,
	"vhTextSet":           vhTextSet,
	"vhCDATA":             vhCDATA,
	"vhActive":            vhActive,
	"vhJSLink":            vhJSLink,
	"vhTextMarkup":        vhTextMarkup,
	"vhActiveOutside":     vhActiveOutside,
	"vhPresentational":    vhPresentational,
	"vhClasses":           vhClasses,
	"vhURLRef":            vhURLRef,
	"vhURLWhere":          vhURLWhere,
	"vhSrcset":            vhSrcset,
	"vhMetaOrder":         vhMetaOrder,
	"vhMetaForm":          vhMetaForm,
	"vhJSONLD":            vhJSONLD,
	"vhJSONLDValues":      vhJSONLDValues,
	"vhMetaDecode":        vhMetaDecode,
	"vhJSONLDMany":        vhJSONLDMany,
	"vhHeadline":          vhHeadline,
	"vhMetaBoth":          vhMetaBoth,
	"vhResult":            vhResult,
	"vhMaxElems":          vhMaxElems,
	"vhMaxElemsMany":      vhMaxElemsMany,
	"vhThreshold":         vhThreshold,
	"vhHistory":           vhHistory,
	"vhReaderableHistory": vhReaderableHistory,
	"vhHidden":            vhHidden,
	"vhHiddenStyle":       vhHiddenStyle,
	"vhVisible":           vhVisible,
	"vhHiddenTwice":       vhHiddenTwice,
	"vhOrder":             vhOrder,
	"vhWhole":             vhWhole,
	"vhLoose":             vhLoose,
	"vhStages":            vhStages,
	"vhLongest":           vhLongest,
	"vhTiny":              vhTiny,
	"vhDirLongest":        vhDirLongest,
	"vhReadKinds":         vhReadKinds,
	"vhReadSum":           vhReadSum,
	"vhReadVisible":       vhReadVisible,
	"vhReadNest":          vhReadNest,
	"vhReadMany":          vhReadMany,
	"vhVideo":             vhVideo,
	"vhVideoHost":         vhVideoHost,
	"vhVideoMix":          vhVideoMix,
	"vhTableMarks":        vhTableMarks,
	"vhTablesMany":        vhTablesMany,
	"vhTableSize":         vhTableSize,
	"vhTableCells":        vhTableCells,
	"vhLazyAttr":          vhLazyAttr,
	"vhLazyValue":         vhLazyValue,
	"vhLazyPlace":         vhLazyPlace,
	"vhNoscript":          vhNoscript,
	"vhLazyMany":          vhLazyMany,
	"vhTitleParts":        vhTitleParts,
	"vhTitleHeads":        vhTitleHeads,
	"vhTitleBytes":        vhTitleBytes,
	"vhByline":            vhByline,
	"vhBylineFirst":       vhBylineFirst,
	"vhLangDir":           vhLangDir,
	"vhUnlikely":          vhUnlikely,
	"vhUnlikelyAt":        vhUnlikelyAt,
	"vhUnlikelyAll":       vhUnlikelyAll,
	"vhFurniture":         vhFurniture,
	"vhTitleHeading":      vhTitleHeading,
	"vhUnlikelyRoot":      vhUnlikelyRoot,
	"vhShares":            vhShares,
	"vhBreaks":            vhBreaks,
	"vhNormal":            vhNormal,
	"vhSingleCell":        vhSingleCell,
	"vhNested":            vhNested,
	"vhInline":            vhInline,
	"vhParallel":          vhParallel,
	"vhBest":              vhBest,
	"vhSiblings":          vhSiblings,
	"vhDepths":            vhDepths,
	"vhAlternatives":      vhAlternatives,
	"vhFifth":             vhFifth,
	"vhScored":            vhScored,
	"vhWide":              vhWide,
	"vhCommas":            vhCommas,
	"vhFishyLinks":        vhFishyLinks,
	"vhFishyImages":       vhFishyImages,
	"vhFishyForm":         vhFishyForm,
	"vhFishyList":         vhFishyList,
	"vhWeightWords":       vhWeightWords,
	"vhWeightBoth":        vhWeightBoth,
	"vhHeadWeight":        vhHeadWeight,
	"vhManyActive":        vhManyActive,
	"vhManyScriptLinks":   vhManyScriptLinks,
	"vhManyAttributes":    vhManyAttributes,
	"vhManyLinks":         vhManyLinks,
	"vhManyHidden":        vhManyHidden,
	"vhManyLazy":          vhManyLazy,
	"vhManyKept":          vhManyKept,
}
