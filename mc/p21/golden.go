package main

// golden are the documented defaults of every kind of step
var golden = map[string][2]string{
	"matchHist": {"OpMatchHistogram{Type:\"matchHist\" Mode:2 }",
		"(mode type)"},
	"align": {"OpAlign{Type:\"align\" K:50 Threshold:3f800000 OobMode:0 }",
		"(k oobMode threshold type)"},
	"calibrate": {"OpCalibrate{Type:\"calibrate\" Dark:\"\" Flat:\"\" }",
		"(dark flat type)"},
	"badPixel": {"OpBadPixel{Type:\"badPixel\" SigmaLow:40400000 SigmaHigh:40a00000 Debayer:nil }",
		"(debayer sigmaHigh sigmaLow type)"},
	"debayer": {"OpDebayer{Type:\"debayer\" Channel:\"\" ColorFilterArray:\"RGGB\" }",
		"(channel colorFilterArray type)"},
	"scaleOffset": {"OpScaleOffset{Type:\"scaleOffset\" Scale:3f800000 Offset:00000000 }",
		"(offset scale type)"},
	"bin": {"OpBin{Type:\"bin\" BinSize:1 }",
		"(binSize type)"},
	"backExtract": {"OpBackExtract{Type:\"backExtract\" GridSize:0 HFRFactor:40800000 Sigma:3fc00000 Clip:0 Save:OpSave{Type:\"save\" FilePattern:\"\" ExportMode:0 Gamma:3f800000 } }",
		"(clip gridSize hfrFactor save(filePattern gamma saveMode type) sigma type)"},
	"starDetect": {"OpStarDetect{Type:\"starDetect\" Radius:16 Sigma:41200000 BadPixelSigma:00000000 InOutRatio:41200000 Save:OpSave{Type:\"save\" FilePattern:\"\" ExportMode:0 Gamma:3f800000 } }",
		"(badPixelSigma inOutRatio radius save(filePattern gamma saveMode type) sigma type)"},
	"debandHoriz": {"OpDebandHoriz{Type:\"debandHoriz\" Percentile:42480000 Window:128 Sigma:40400000 }",
		"(percentile sigma type window)"},
	"debandVert": {"OpDebandVert{Type:\"debandVert\" Percentile:42480000 Window:128 Sigma:40400000 }",
		"(percentile sigma type window)"},
	"rgbCombine": {"OpRGBCombine{Type:\"rgbCombine\" }",
		"(type)"},
	"rgbBalance": {"OpRGBBalance{Type:\"rgbBalance\" Block:16 Border:3dcccccd SkipBright:00000000 SkipDim:3f400000 Shadows:RGB{R:3f800000 G:3f800000 B:3f800000 } Highlights:RGB{R:3f800000 G:3f800000 B:3f800000 } }",
		"(block border highlights(B G R) shadows(B G R) skipBright skipDim type)"},
	"rgbToHSLuv": {"OpRGBToHSLuv{Type:\"rgbToHSLuv\" }",
		"(type)"},
	"hsluvToRGB": {"OpHSLuvToRGB{Type:\"hsluvToRGB\" }",
		"(type)"},
	"stackBatches": {"OpStackBatches{Type:\"stackBatches\" PerBatch:OpSequence{Type:\"seq\" Steps:[] } }",
		"(perBatch(steps type) type)"},
	"stack": {"OpStack{Type:\"stack\" Mode:6 Weighting:0 SigmaLow:40300000 SigmaHigh:40300000 }",
		"(mode sigmaHigh sigmaLow type weighting)"},
	"hslApplyLum": {"OpHSLApplyLum{Type:\"hslApplyLum\" }",
		"(type)"},
	"hslScaleOffsetChannel": {"OpHSLScaleOffsetChannel{Type:\"hslScaleOffsetChannel\" ChannelID:2 Scale:3f800000 Offset:00000000 }",
		"(channelID offset scale type)"},
	"hslNeutralizeBackground": {"OpHSLNeutralizeBackground{Type:\"hslNeutralizeBackground\" SigmaLow:3f400000 SigmaHigh:3f800000 }",
		"(sigmaHigh sigmaLow type)"},
	"hslSaturationGamma": {"OpHSLSaturationGamma{Type:\"hslSaturationGamma\" Gamma:3fe00000 Sigma:3f400000 }",
		"(gamma sigma type)"},
	"hslSelectiveSaturation": {"OpHSLSelectiveSaturation{Type:\"hslSelectiveSaturation\" From:43938000 To:42200000 Factor:3f800000 }",
		"(factor from to type)"},
	"hslRotateHue": {"OpHSLRotateHue{Type:\"hslRotateHue\" From:42c80000 To:433e0000 Offset:00000000 Sigma:3f800000 }",
		"(from offset sigma to type)"},
	"hslSCNR": {"OpHSLSCNR{Type:\"hslSCNR\" Factor:00000000 }",
		"(factor type)"},
	"hslMidtones": {"OpHSLMidtones{Type:\"hslMidtones\" Mid:00000000 Black:40000000 }",
		"(black mid type)"},
	"hslGamma": {"OpHSLGamma{Type:\"hslGamma\" Gamma:3f800000 }",
		"(gamma type)"},
	"hslGammaPP": {"OpHSLGammaPP{Type:\"hslGammaPP\" Gamma:3f800000 Sigma:3f800000 }",
		"(gamma sigma type)"},
	"HSLUnsharpMask": {"OpHSLUnsharpMask{Type:\"HSLUnsharpMask\" Sigma:3fc00000 Gain:00000000 Threshold:3f400000 }",
		"(gain sigma threshold type)"},
	"hslScaleBlack": {"OpHSLScaleBlack{Type:\"hslScaleBlack\" Location:00000000 }",
		"(location type)"},
	"hslStretch": {"OpHSLStretchIterative{Type:\"hslStretch\" Location:3dcccccd Scale:3b83126f }",
		"(location scale type)"},
	"exportStats": {"OpExportStats{Type:\"exportStats\" FileName:\"out.html\" }",
		"(fileName type)"},
	"filter": {"OpFilter{Type:\"filter\" MinStars:0 }",
		"(minStars type)"},
	"selectRef": {"OpSelectReference{Type:\"selectRef\" Target:0 Mode:\"%starsHFR\" StarDetect:OpStarDetect{Type:\"starDetect\" Radius:16 Sigma:41200000 BadPixelSigma:00000000 InOutRatio:41200000 Save:OpSave{Type:\"save\" FilePattern:\"\" ExportMode:0 Gamma:3f800000 } } }",
		"(mode starDetect(badPixelSigma inOutRatio radius save(filePattern gamma saveMode type) sigma type) target type)"},
	"normRange": {"OpNormalizeRange{Type:\"normRange\" }",
		"(type)"},
	"stretch": {"OpStretchIterative{Type:\"stretch\" Location:3dcccccd Scale:3b83126f }",
		"(location scale type)"},
	"midtones": {"OpMidtones{Type:\"midtones\" Mid:00000000 Black:3f800000 }",
		"(black mid type)"},
	"gamma": {"OpGamma{Type:\"gamma\" Gamma:3f800000 }",
		"(gamma type)"},
	"gammaPP": {"OpGammaPP{Type:\"gammaPP\" Gamma:3f800000 Sigma:3f800000 }",
		"(gamma sigma type)"},
	"scaleBlack": {"OpScaleBlack{Type:\"scaleBlack\" Location:00000000 }",
		"(location type)"},
	"gaussianBlur": {"OpGaussianBlur{Type:\"gaussianBlur\" Sigma:40000000 }",
		"(sigma type)"},
	"unsharpMask": {"OpUnsharpMask{Type:\"unsharpMask\" Sigma:3fc00000 Gain:00000000 Threshold:3f800000 }",
		"(gain sigma threshold type)"},
	"load": {"OpLoad{Type:\"load\" ID:0 FileName:\"\" }",
		"(fileName id type)"},
	"loadMany": {"OpLoadMany{Type:\"loadMany\" FilePatterns:[] }",
		"(filePatterns type)"},
	"save": {"OpSave{Type:\"save\" FilePattern:\"\" ExportMode:0 Gamma:3f800000 }",
		"(filePattern gamma saveMode type)"},
	"seq": {"OpSequence{Type:\"seq\" Steps:[] }",
		"(steps type)"},
}
