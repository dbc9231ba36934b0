//go:build go1.22

package main

// Written by tools/mktables.py.

var opTable = map[string][]string{
	"mktfhe.BinaryDecryptor": {
		"BinaryEncoder.DecodeLWEBool",
		"BinaryEncoder.EncodeLWEBool",
		"BinaryEncoder.Encoder.DecodeGLWE",
		"BinaryEncoder.Encoder.DecodeGLWECustom",
		"BinaryEncoder.Encoder.DecodeGLWECustomTo",
		"BinaryEncoder.Encoder.DecodeGLWETo",
		"BinaryEncoder.Encoder.DecodeLWE",
		"BinaryEncoder.Encoder.DecodeLWECustom",
		"BinaryEncoder.Encoder.EncodeGLWE",
		"BinaryEncoder.Encoder.EncodeGLWECustom",
		"BinaryEncoder.Encoder.EncodeGLWECustomTo",
		"BinaryEncoder.Encoder.EncodeGLWETo",
		"BinaryEncoder.Encoder.EncodeLWE",
		"BinaryEncoder.Encoder.EncodeLWECustom",
		"DecodeLWEBool",
		"DecryptLWEBits",
		"DecryptLWEBool",
		"EncodeLWEBool",
	},
	"mktfhe.BinaryEvaluator": {
		"AND",
		"ANDParallel",
		"ANDParallelTo",
		"ANDTo",
		"BinaryEncoder.DecodeLWEBool",
		"BinaryEncoder.EncodeLWEBool",
		"BinaryEncoder.Encoder.DecodeGLWE",
		"BinaryEncoder.Encoder.DecodeGLWECustom",
		"BinaryEncoder.Encoder.DecodeGLWECustomTo",
		"BinaryEncoder.Encoder.DecodeGLWETo",
		"BinaryEncoder.Encoder.DecodeLWE",
		"BinaryEncoder.Encoder.DecodeLWECustom",
		"BinaryEncoder.Encoder.EncodeGLWE",
		"BinaryEncoder.Encoder.EncodeGLWECustom",
		"BinaryEncoder.Encoder.EncodeGLWECustomTo",
		"BinaryEncoder.Encoder.EncodeGLWETo",
		"BinaryEncoder.Encoder.EncodeLWE",
		"BinaryEncoder.Encoder.EncodeLWECustom",
		"DecodeLWEBool",
		"EncodeLWEBool",
		"Evaluator.AddFFTGLWE",
		"Evaluator.AddFFTGLWETo",
		"Evaluator.AddGLWE",
		"Evaluator.AddGLWETo",
		"Evaluator.AddLWE",
		"Evaluator.AddLWETo",
		"Evaluator.AddPlainGLWE",
		"Evaluator.AddPlainGLWETo",
		"Evaluator.AddPlainLWE",
		"Evaluator.AddPlainLWETo",
		"Evaluator.BlindRotate",
		"Evaluator.BlindRotateParallel",
		"Evaluator.BlindRotateParallelTo",
		"Evaluator.BlindRotateTo",
		"Evaluator.BootstrapFunc",
		"Evaluator.BootstrapFuncParallel",
		"Evaluator.BootstrapFuncParallelTo",
		"Evaluator.BootstrapFuncTo",
		"Evaluator.BootstrapLUT",
		"Evaluator.BootstrapLUTParallel",
		"Evaluator.BootstrapLUTParallelTo",
		"Evaluator.BootstrapLUTTo",
		"Evaluator.CmplxMulAddFFTGLWETo",
		"Evaluator.CmplxMulFFTGLWE",
		"Evaluator.CmplxMulFFTGLWETo",
		"Evaluator.CmplxMulSubFFTGLWETo",
		"Evaluator.DecodeGLWE",
		"Evaluator.DecodeGLWECustom",
		"Evaluator.DecodeGLWECustomTo",
		"Evaluator.DecodeGLWETo",
		"Evaluator.DecodeLWE",
		"Evaluator.DecodeLWECustom",
		"Evaluator.Decomposer.DecomposePoly",
		"Evaluator.Decomposer.DecomposePolyTo",
		"Evaluator.Decomposer.DecomposeScalar",
		"Evaluator.Decomposer.DecomposeScalarTo",
		"Evaluator.Decomposer.FourierDecomposePoly",
		"Evaluator.Decomposer.FourierDecomposePolyTo",
		"Evaluator.Decomposer.RecomposePoly",
		"Evaluator.Decomposer.RecomposePolyTo",
		"Evaluator.Decomposer.RecomposeScalar",
		"Evaluator.DefaultKeySwitch",
		"Evaluator.DefaultKeySwitchTo",
		"Evaluator.EncodeGLWE",
		"Evaluator.EncodeGLWECustom",
		"Evaluator.EncodeGLWECustomTo",
		"Evaluator.EncodeGLWETo",
		"Evaluator.EncodeLWE",
		"Evaluator.EncodeLWECustom",
		"Evaluator.ExternalProdAddGLWETo",
		"Evaluator.ExternalProdGLWE",
		"Evaluator.ExternalProdGLWETo",
		"Evaluator.ExternalProdSubGLWETo",
		"Evaluator.FFTPolyMulAddFFTGLWETo",
		"Evaluator.FFTPolyMulAddGLWETo",
		"Evaluator.FFTPolyMulFFTGLWE",
		"Evaluator.FFTPolyMulFFTGLWETo",
		"Evaluator.FFTPolyMulGLWE",
		"Evaluator.FFTPolyMulGLWETo",
		"Evaluator.FFTPolyMulSubFFTGLWETo",
		"Evaluator.FFTPolyMulSubGLWETo",
		"Evaluator.FloatMulAddFFTGLWETo",
		"Evaluator.FloatMulFFTGLWE",
		"Evaluator.FloatMulFFTGLWETo",
		"Evaluator.FloatMulSubFFTGLWETo",
		"Evaluator.FwdFFTGLWECiphertext",
		"Evaluator.FwdFFTGLWECiphertextTo",
		"Evaluator.FwdFFTGLWESecretKey",
		"Evaluator.FwdFFTGLWESecretKeyTo",
		"Evaluator.GLWETransformer.FwdFFTGLWECiphertext",
		"Evaluator.GLWETransformer.FwdFFTGLWECiphertextTo",
		"Evaluator.GLWETransformer.FwdFFTGLWESecretKey",
		"Evaluator.GLWETransformer.FwdFFTGLWESecretKeyTo",
		"Evaluator.GLWETransformer.InvFFTGLWESecretKey",
		"Evaluator.GLWETransformer.InvFFTGLWESecretKeyTo",
		"Evaluator.GLWETransformer.InvGLWECiphertext",
		"Evaluator.GLWETransformer.InvGLWECiphertextTo",
		"Evaluator.HybridProdAddGLWETo",
		"Evaluator.HybridProdGLWE",
		"Evaluator.HybridProdGLWETo",
		"Evaluator.HybridProdSubGLWETo",
		"Evaluator.InvFFTGLWESecretKey",
		"Evaluator.InvFFTGLWESecretKeyTo",
		"Evaluator.InvGLWECiphertext",
		"Evaluator.InvGLWECiphertextTo",
		"Evaluator.MonomialMulAddGLWETo",
		"Evaluator.MonomialMulGLWE",
		"Evaluator.MonomialMulGLWEInPlace",
		"Evaluator.MonomialMulGLWETo",
		"Evaluator.MonomialMulSubGLWETo",
		"Evaluator.NegFFTGLWE",
		"Evaluator.NegFFTGLWETo",
		"Evaluator.NegGLWE",
		"Evaluator.NegGLWETo",
		"Evaluator.NegLWE",
		"Evaluator.NegLWETo",
		"Evaluator.PermuteAddFFTGLWETo",
		"Evaluator.PermuteAddGLWETo",
		"Evaluator.PermuteFFTGLWEInPlace",
		"Evaluator.PermuteFFTGLWETo",
		"Evaluator.PermuteGLWEInPlace",
		"Evaluator.PermuteGLWETo",
		"Evaluator.PermuteSubFFTGLWETo",
		"Evaluator.PermuteSubGLWETo",
		"Evaluator.PolyEvaluator.AddFFTPoly",
		"Evaluator.PolyEvaluator.AddFFTPolyTo",
		"Evaluator.PolyEvaluator.AddPoly",
		"Evaluator.PolyEvaluator.AddPolyTo",
		"Evaluator.PolyEvaluator.CmplxMulAddFFTPolyTo",
		"Evaluator.PolyEvaluator.CmplxMulFFTPoly",
		"Evaluator.PolyEvaluator.CmplxMulFFTPolyTo",
		"Evaluator.PolyEvaluator.CmplxMulSubFFTPolyTo",
		"Evaluator.PolyEvaluator.FFTPolyMulAddPolyTo",
		"Evaluator.PolyEvaluator.FFTPolyMulPoly",
		"Evaluator.PolyEvaluator.FFTPolyMulPolyTo",
		"Evaluator.PolyEvaluator.FFTPolyMulSubPolyTo",
		"Evaluator.PolyEvaluator.FloatMulAddFFTPolyTo",
		"Evaluator.PolyEvaluator.FloatMulFFTPoly",
		"Evaluator.PolyEvaluator.FloatMulFFTPolyTo",
		"Evaluator.PolyEvaluator.FloatMulSubFFTPolyTo",
		"Evaluator.PolyEvaluator.FwdFFT",
		"Evaluator.PolyEvaluator.FwdFFTAddTo",
		"Evaluator.PolyEvaluator.FwdFFTSubTo",
		"Evaluator.PolyEvaluator.FwdFFTTo",
		"Evaluator.PolyEvaluator.InvFFT",
		"Evaluator.PolyEvaluator.InvFFTAddTo",
		"Evaluator.PolyEvaluator.InvFFTAddToUnsafe",
		"Evaluator.PolyEvaluator.InvFFTSubTo",
		"Evaluator.PolyEvaluator.InvFFTSubToUnsafe",
		"Evaluator.PolyEvaluator.InvFFTTo",
		"Evaluator.PolyEvaluator.InvFFTToUnsafe",
		"Evaluator.PolyEvaluator.MonomialFwdFFT",
		"Evaluator.PolyEvaluator.MonomialFwdFFTTo",
		"Evaluator.PolyEvaluator.MonomialMulAddPolyTo",
		"Evaluator.PolyEvaluator.MonomialMulPoly",
		"Evaluator.PolyEvaluator.MonomialMulPolyInPlace",
		"Evaluator.PolyEvaluator.MonomialMulPolyTo",
		"Evaluator.PolyEvaluator.MonomialMulSubPolyTo",
		"Evaluator.PolyEvaluator.MonomialSubOneFwdFFT",
		"Evaluator.PolyEvaluator.MonomialSubOneFwdFFTTo",
		"Evaluator.PolyEvaluator.MulAddFFTPolyTo",
		"Evaluator.PolyEvaluator.MulAddPolyTo",
		"Evaluator.PolyEvaluator.MulFFTPoly",
		"Evaluator.PolyEvaluator.MulFFTPolyTo",
		"Evaluator.PolyEvaluator.MulPoly",
		"Evaluator.PolyEvaluator.MulPolyTo",
		"Evaluator.PolyEvaluator.MulSubFFTPolyTo",
		"Evaluator.PolyEvaluator.MulSubPolyTo",
		"Evaluator.PolyEvaluator.NegFFTPoly",
		"Evaluator.PolyEvaluator.NegFFTPolyTo",
		"Evaluator.PolyEvaluator.NegPoly",
		"Evaluator.PolyEvaluator.NegPolyTo",
		"Evaluator.PolyEvaluator.NewFFTPoly",
		"Evaluator.PolyEvaluator.NewPoly",
		"Evaluator.PolyEvaluator.PermuteAddFFTPolyTo",
		"Evaluator.PolyEvaluator.PermuteAddPolyTo",
		"Evaluator.PolyEvaluator.PermuteFFTPoly",
		"Evaluator.PolyEvaluator.PermuteFFTPolyInPlace",
		"Evaluator.PolyEvaluator.PermuteFFTPolyTo",
		"Evaluator.PolyEvaluator.PermutePoly",
		"Evaluator.PolyEvaluator.PermutePolyInPlace",
		"Evaluator.PolyEvaluator.PermutePolyTo",
		"Evaluator.PolyEvaluator.PermuteSubFFTPolyTo",
		"Evaluator.PolyEvaluator.PermuteSubPolyTo",
		"Evaluator.PolyEvaluator.PolyMulAddFFTPolyTo",
		"Evaluator.PolyEvaluator.PolyMulFFTPoly",
		"Evaluator.PolyEvaluator.PolyMulFFTPolyTo",
		"Evaluator.PolyEvaluator.PolyMulSubFFTPolyTo",
		"Evaluator.PolyEvaluator.Rank",
		"Evaluator.PolyEvaluator.ScalarMulAddPolyTo",
		"Evaluator.PolyEvaluator.ScalarMulPoly",
		"Evaluator.PolyEvaluator.ScalarMulPolyTo",
		"Evaluator.PolyEvaluator.ScalarMulSubPolyTo",
		"Evaluator.PolyEvaluator.ShortFFTPolyMulAddPolyTo",
		"Evaluator.PolyEvaluator.ShortFFTPolyMulPoly",
		"Evaluator.PolyEvaluator.ShortFFTPolyMulPolyTo",
		"Evaluator.PolyEvaluator.ShortFFTPolyMulSubPolyTo",
		"Evaluator.PolyEvaluator.SubFFTPoly",
		"Evaluator.PolyEvaluator.SubFFTPolyTo",
		"Evaluator.PolyEvaluator.SubPoly",
		"Evaluator.PolyEvaluator.SubPolyTo",
		"Evaluator.PolyMulAddFFTGLWETo",
		"Evaluator.PolyMulAddGLWETo",
		"Evaluator.PolyMulFFTGLWE",
		"Evaluator.PolyMulFFTGLWETo",
		"Evaluator.PolyMulGLWE",
		"Evaluator.PolyMulGLWETo",
		"Evaluator.PolyMulSubFFTGLWETo",
		"Evaluator.PolyMulSubGLWETo",
		"Evaluator.ScalarMulAddGLWETo",
		"Evaluator.ScalarMulAddLWETo",
		"Evaluator.ScalarMulGLWE",
		"Evaluator.ScalarMulGLWETo",
		"Evaluator.ScalarMulLWE",
		"Evaluator.ScalarMulLWETo",
		"Evaluator.ScalarMulSubGLWETo",
		"Evaluator.ScalarMulSubLWETo",
		"Evaluator.SubFFTGLWE",
		"Evaluator.SubFFTGLWETo",
		"Evaluator.SubGLWE",
		"Evaluator.SubGLWETo",
		"Evaluator.SubLWE",
		"Evaluator.SubLWETo",
		"Evaluator.SubPlainGLWE",
		"Evaluator.SubPlainGLWETo",
		"Evaluator.SubPlainLWE",
		"Evaluator.SubPlainLWETo",
		"NAND",
		"NANDParallel",
		"NANDParallelTo",
		"NANDTo",
		"NOR",
		"NORParallel",
		"NORParallelTo",
		"NORTo",
		"NOT",
		"NOTTo",
		"OR",
		"ORParallel",
		"ORParallelTo",
		"ORTo",
		"XNOR",
		"XNORParallel",
		"XNORParallelTo",
		"XNORTo",
		"XOR",
		"XORParallel",
		"XORParallelTo",
		"XORTo",
	},
	"mktfhe.Decryptor": {
		"DecodeGLWE",
		"DecodeGLWECustom",
		"DecodeGLWECustomTo",
		"DecodeGLWETo",
		"DecodeLWE",
		"DecodeLWECustom",
		"DecryptFFTGLWE",
		"DecryptFFTGLWEPhase",
		"DecryptFFTGLWEPhaseTo",
		"DecryptFFTGLWETo",
		"DecryptGLWE",
		"DecryptGLWEPhase",
		"DecryptGLWEPhaseTo",
		"DecryptGLWETo",
		"DecryptLWE",
		"DecryptLWEPlaintext",
		"EncodeGLWE",
		"EncodeGLWECustom",
		"EncodeGLWECustomTo",
		"EncodeGLWETo",
		"EncodeLWE",
		"EncodeLWECustom",
		"Encoder.DecodeGLWE",
		"Encoder.DecodeGLWECustom",
		"Encoder.DecodeGLWECustomTo",
		"Encoder.DecodeGLWETo",
		"Encoder.DecodeLWE",
		"Encoder.DecodeLWECustom",
		"Encoder.EncodeGLWE",
		"Encoder.EncodeGLWECustom",
		"Encoder.EncodeGLWECustomTo",
		"Encoder.EncodeGLWETo",
		"Encoder.EncodeLWE",
		"Encoder.EncodeLWECustom",
		"FwdFFTGLWECiphertext",
		"FwdFFTGLWECiphertextTo",
		"FwdFFTGLWESecretKey",
		"FwdFFTGLWESecretKeyTo",
		"GLWETransformer.FwdFFTGLWECiphertext",
		"GLWETransformer.FwdFFTGLWECiphertextTo",
		"GLWETransformer.FwdFFTGLWESecretKey",
		"GLWETransformer.FwdFFTGLWESecretKeyTo",
		"GLWETransformer.InvFFTGLWESecretKey",
		"GLWETransformer.InvFFTGLWESecretKeyTo",
		"GLWETransformer.InvGLWECiphertext",
		"GLWETransformer.InvGLWECiphertextTo",
		"GLWETransformer.PolyEvaluator.AddFFTPoly",
		"GLWETransformer.PolyEvaluator.AddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.AddPoly",
		"GLWETransformer.PolyEvaluator.AddPolyTo",
		"GLWETransformer.PolyEvaluator.CmplxMulAddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.CmplxMulFFTPoly",
		"GLWETransformer.PolyEvaluator.CmplxMulFFTPolyTo",
		"GLWETransformer.PolyEvaluator.CmplxMulSubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.FFTPolyMulAddPolyTo",
		"GLWETransformer.PolyEvaluator.FFTPolyMulPoly",
		"GLWETransformer.PolyEvaluator.FFTPolyMulPolyTo",
		"GLWETransformer.PolyEvaluator.FFTPolyMulSubPolyTo",
		"GLWETransformer.PolyEvaluator.FloatMulAddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.FloatMulFFTPoly",
		"GLWETransformer.PolyEvaluator.FloatMulFFTPolyTo",
		"GLWETransformer.PolyEvaluator.FloatMulSubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.FwdFFT",
		"GLWETransformer.PolyEvaluator.FwdFFTAddTo",
		"GLWETransformer.PolyEvaluator.FwdFFTSubTo",
		"GLWETransformer.PolyEvaluator.FwdFFTTo",
		"GLWETransformer.PolyEvaluator.InvFFT",
		"GLWETransformer.PolyEvaluator.InvFFTAddTo",
		"GLWETransformer.PolyEvaluator.InvFFTAddToUnsafe",
		"GLWETransformer.PolyEvaluator.InvFFTSubTo",
		"GLWETransformer.PolyEvaluator.InvFFTSubToUnsafe",
		"GLWETransformer.PolyEvaluator.InvFFTTo",
		"GLWETransformer.PolyEvaluator.InvFFTToUnsafe",
		"GLWETransformer.PolyEvaluator.MonomialFwdFFT",
		"GLWETransformer.PolyEvaluator.MonomialFwdFFTTo",
		"GLWETransformer.PolyEvaluator.MonomialMulAddPolyTo",
		"GLWETransformer.PolyEvaluator.MonomialMulPoly",
		"GLWETransformer.PolyEvaluator.MonomialMulPolyInPlace",
		"GLWETransformer.PolyEvaluator.MonomialMulPolyTo",
		"GLWETransformer.PolyEvaluator.MonomialMulSubPolyTo",
		"GLWETransformer.PolyEvaluator.MonomialSubOneFwdFFT",
		"GLWETransformer.PolyEvaluator.MonomialSubOneFwdFFTTo",
		"GLWETransformer.PolyEvaluator.MulAddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.MulAddPolyTo",
		"GLWETransformer.PolyEvaluator.MulFFTPoly",
		"GLWETransformer.PolyEvaluator.MulFFTPolyTo",
		"GLWETransformer.PolyEvaluator.MulPoly",
		"GLWETransformer.PolyEvaluator.MulPolyTo",
		"GLWETransformer.PolyEvaluator.MulSubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.MulSubPolyTo",
		"GLWETransformer.PolyEvaluator.NegFFTPoly",
		"GLWETransformer.PolyEvaluator.NegFFTPolyTo",
		"GLWETransformer.PolyEvaluator.NegPoly",
		"GLWETransformer.PolyEvaluator.NegPolyTo",
		"GLWETransformer.PolyEvaluator.NewFFTPoly",
		"GLWETransformer.PolyEvaluator.NewPoly",
		"GLWETransformer.PolyEvaluator.PermuteAddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.PermuteAddPolyTo",
		"GLWETransformer.PolyEvaluator.PermuteFFTPoly",
		"GLWETransformer.PolyEvaluator.PermuteFFTPolyInPlace",
		"GLWETransformer.PolyEvaluator.PermuteFFTPolyTo",
		"GLWETransformer.PolyEvaluator.PermutePoly",
		"GLWETransformer.PolyEvaluator.PermutePolyInPlace",
		"GLWETransformer.PolyEvaluator.PermutePolyTo",
		"GLWETransformer.PolyEvaluator.PermuteSubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.PermuteSubPolyTo",
		"GLWETransformer.PolyEvaluator.PolyMulAddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.PolyMulFFTPoly",
		"GLWETransformer.PolyEvaluator.PolyMulFFTPolyTo",
		"GLWETransformer.PolyEvaluator.PolyMulSubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.Rank",
		"GLWETransformer.PolyEvaluator.ScalarMulAddPolyTo",
		"GLWETransformer.PolyEvaluator.ScalarMulPoly",
		"GLWETransformer.PolyEvaluator.ScalarMulPolyTo",
		"GLWETransformer.PolyEvaluator.ScalarMulSubPolyTo",
		"GLWETransformer.PolyEvaluator.ShortFFTPolyMulAddPolyTo",
		"GLWETransformer.PolyEvaluator.ShortFFTPolyMulPoly",
		"GLWETransformer.PolyEvaluator.ShortFFTPolyMulPolyTo",
		"GLWETransformer.PolyEvaluator.ShortFFTPolyMulSubPolyTo",
		"GLWETransformer.PolyEvaluator.SubFFTPoly",
		"GLWETransformer.PolyEvaluator.SubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.SubPoly",
		"GLWETransformer.PolyEvaluator.SubPolyTo",
		"InvFFTGLWESecretKey",
		"InvFFTGLWESecretKeyTo",
		"InvGLWECiphertext",
		"InvGLWECiphertextTo",
	},
	"mktfhe.Evaluator": {
		"AddFFTGLWE",
		"AddFFTGLWETo",
		"AddGLWE",
		"AddGLWETo",
		"AddLWE",
		"AddLWETo",
		"AddPlainGLWE",
		"AddPlainGLWETo",
		"AddPlainLWE",
		"AddPlainLWETo",
		"BlindRotate",
		"BlindRotateParallel",
		"BlindRotateParallelTo",
		"BlindRotateTo",
		"BootstrapFunc",
		"BootstrapFuncParallel",
		"BootstrapFuncParallelTo",
		"BootstrapFuncTo",
		"BootstrapLUT",
		"BootstrapLUTParallel",
		"BootstrapLUTParallelTo",
		"BootstrapLUTTo",
		"CmplxMulAddFFTGLWETo",
		"CmplxMulFFTGLWE",
		"CmplxMulFFTGLWETo",
		"CmplxMulSubFFTGLWETo",
		"DecodeGLWE",
		"DecodeGLWECustom",
		"DecodeGLWECustomTo",
		"DecodeGLWETo",
		"DecodeLWE",
		"DecodeLWECustom",
		"Decomposer.DecomposePoly",
		"Decomposer.DecomposePolyTo",
		"Decomposer.DecomposeScalar",
		"Decomposer.DecomposeScalarTo",
		"Decomposer.FourierDecomposePoly",
		"Decomposer.FourierDecomposePolyTo",
		"Decomposer.RecomposePoly",
		"Decomposer.RecomposePolyTo",
		"Decomposer.RecomposeScalar",
		"DefaultKeySwitch",
		"DefaultKeySwitchTo",
		"EncodeGLWE",
		"EncodeGLWECustom",
		"EncodeGLWECustomTo",
		"EncodeGLWETo",
		"EncodeLWE",
		"EncodeLWECustom",
		"Encoder.DecodeGLWE",
		"Encoder.DecodeGLWECustom",
		"Encoder.DecodeGLWECustomTo",
		"Encoder.DecodeGLWETo",
		"Encoder.DecodeLWE",
		"Encoder.DecodeLWECustom",
		"Encoder.EncodeGLWE",
		"Encoder.EncodeGLWECustom",
		"Encoder.EncodeGLWECustomTo",
		"Encoder.EncodeGLWETo",
		"Encoder.EncodeLWE",
		"Encoder.EncodeLWECustom",
		"ExternalProdAddGLWETo",
		"ExternalProdGLWE",
		"ExternalProdGLWETo",
		"ExternalProdSubGLWETo",
		"FFTPolyMulAddFFTGLWETo",
		"FFTPolyMulAddGLWETo",
		"FFTPolyMulFFTGLWE",
		"FFTPolyMulFFTGLWETo",
		"FFTPolyMulGLWE",
		"FFTPolyMulGLWETo",
		"FFTPolyMulSubFFTGLWETo",
		"FFTPolyMulSubGLWETo",
		"FloatMulAddFFTGLWETo",
		"FloatMulFFTGLWE",
		"FloatMulFFTGLWETo",
		"FloatMulSubFFTGLWETo",
		"FwdFFTGLWECiphertext",
		"FwdFFTGLWECiphertextTo",
		"FwdFFTGLWESecretKey",
		"FwdFFTGLWESecretKeyTo",
		"GLWETransformer.FwdFFTGLWECiphertext",
		"GLWETransformer.FwdFFTGLWECiphertextTo",
		"GLWETransformer.FwdFFTGLWESecretKey",
		"GLWETransformer.FwdFFTGLWESecretKeyTo",
		"GLWETransformer.InvFFTGLWESecretKey",
		"GLWETransformer.InvFFTGLWESecretKeyTo",
		"GLWETransformer.InvGLWECiphertext",
		"GLWETransformer.InvGLWECiphertextTo",
		"GLWETransformer.PolyEvaluator.AddFFTPoly",
		"GLWETransformer.PolyEvaluator.AddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.AddPoly",
		"GLWETransformer.PolyEvaluator.AddPolyTo",
		"GLWETransformer.PolyEvaluator.CmplxMulAddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.CmplxMulFFTPoly",
		"GLWETransformer.PolyEvaluator.CmplxMulFFTPolyTo",
		"GLWETransformer.PolyEvaluator.CmplxMulSubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.FFTPolyMulAddPolyTo",
		"GLWETransformer.PolyEvaluator.FFTPolyMulPoly",
		"GLWETransformer.PolyEvaluator.FFTPolyMulPolyTo",
		"GLWETransformer.PolyEvaluator.FFTPolyMulSubPolyTo",
		"GLWETransformer.PolyEvaluator.FloatMulAddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.FloatMulFFTPoly",
		"GLWETransformer.PolyEvaluator.FloatMulFFTPolyTo",
		"GLWETransformer.PolyEvaluator.FloatMulSubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.FwdFFT",
		"GLWETransformer.PolyEvaluator.FwdFFTAddTo",
		"GLWETransformer.PolyEvaluator.FwdFFTSubTo",
		"GLWETransformer.PolyEvaluator.FwdFFTTo",
		"GLWETransformer.PolyEvaluator.InvFFT",
		"GLWETransformer.PolyEvaluator.InvFFTAddTo",
		"GLWETransformer.PolyEvaluator.InvFFTAddToUnsafe",
		"GLWETransformer.PolyEvaluator.InvFFTSubTo",
		"GLWETransformer.PolyEvaluator.InvFFTSubToUnsafe",
		"GLWETransformer.PolyEvaluator.InvFFTTo",
		"GLWETransformer.PolyEvaluator.InvFFTToUnsafe",
		"GLWETransformer.PolyEvaluator.MonomialFwdFFT",
		"GLWETransformer.PolyEvaluator.MonomialFwdFFTTo",
		"GLWETransformer.PolyEvaluator.MonomialMulAddPolyTo",
		"GLWETransformer.PolyEvaluator.MonomialMulPoly",
		"GLWETransformer.PolyEvaluator.MonomialMulPolyInPlace",
		"GLWETransformer.PolyEvaluator.MonomialMulPolyTo",
		"GLWETransformer.PolyEvaluator.MonomialMulSubPolyTo",
		"GLWETransformer.PolyEvaluator.MonomialSubOneFwdFFT",
		"GLWETransformer.PolyEvaluator.MonomialSubOneFwdFFTTo",
		"GLWETransformer.PolyEvaluator.MulAddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.MulAddPolyTo",
		"GLWETransformer.PolyEvaluator.MulFFTPoly",
		"GLWETransformer.PolyEvaluator.MulFFTPolyTo",
		"GLWETransformer.PolyEvaluator.MulPoly",
		"GLWETransformer.PolyEvaluator.MulPolyTo",
		"GLWETransformer.PolyEvaluator.MulSubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.MulSubPolyTo",
		"GLWETransformer.PolyEvaluator.NegFFTPoly",
		"GLWETransformer.PolyEvaluator.NegFFTPolyTo",
		"GLWETransformer.PolyEvaluator.NegPoly",
		"GLWETransformer.PolyEvaluator.NegPolyTo",
		"GLWETransformer.PolyEvaluator.NewFFTPoly",
		"GLWETransformer.PolyEvaluator.NewPoly",
		"GLWETransformer.PolyEvaluator.PermuteAddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.PermuteAddPolyTo",
		"GLWETransformer.PolyEvaluator.PermuteFFTPoly",
		"GLWETransformer.PolyEvaluator.PermuteFFTPolyInPlace",
		"GLWETransformer.PolyEvaluator.PermuteFFTPolyTo",
		"GLWETransformer.PolyEvaluator.PermutePoly",
		"GLWETransformer.PolyEvaluator.PermutePolyInPlace",
		"GLWETransformer.PolyEvaluator.PermutePolyTo",
		"GLWETransformer.PolyEvaluator.PermuteSubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.PermuteSubPolyTo",
		"GLWETransformer.PolyEvaluator.PolyMulAddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.PolyMulFFTPoly",
		"GLWETransformer.PolyEvaluator.PolyMulFFTPolyTo",
		"GLWETransformer.PolyEvaluator.PolyMulSubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.Rank",
		"GLWETransformer.PolyEvaluator.ScalarMulAddPolyTo",
		"GLWETransformer.PolyEvaluator.ScalarMulPoly",
		"GLWETransformer.PolyEvaluator.ScalarMulPolyTo",
		"GLWETransformer.PolyEvaluator.ScalarMulSubPolyTo",
		"GLWETransformer.PolyEvaluator.ShortFFTPolyMulAddPolyTo",
		"GLWETransformer.PolyEvaluator.ShortFFTPolyMulPoly",
		"GLWETransformer.PolyEvaluator.ShortFFTPolyMulPolyTo",
		"GLWETransformer.PolyEvaluator.ShortFFTPolyMulSubPolyTo",
		"GLWETransformer.PolyEvaluator.SubFFTPoly",
		"GLWETransformer.PolyEvaluator.SubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.SubPoly",
		"GLWETransformer.PolyEvaluator.SubPolyTo",
		"HybridProdAddGLWETo",
		"HybridProdGLWE",
		"HybridProdGLWETo",
		"HybridProdSubGLWETo",
		"InvFFTGLWESecretKey",
		"InvFFTGLWESecretKeyTo",
		"InvGLWECiphertext",
		"InvGLWECiphertextTo",
		"MonomialMulAddGLWETo",
		"MonomialMulGLWE",
		"MonomialMulGLWEInPlace",
		"MonomialMulGLWETo",
		"MonomialMulSubGLWETo",
		"NegFFTGLWE",
		"NegFFTGLWETo",
		"NegGLWE",
		"NegGLWETo",
		"NegLWE",
		"NegLWETo",
		"PermuteAddFFTGLWETo",
		"PermuteAddGLWETo",
		"PermuteFFTGLWEInPlace",
		"PermuteFFTGLWETo",
		"PermuteGLWEInPlace",
		"PermuteGLWETo",
		"PermuteSubFFTGLWETo",
		"PermuteSubGLWETo",
		"PolyMulAddFFTGLWETo",
		"PolyMulAddGLWETo",
		"PolyMulFFTGLWE",
		"PolyMulFFTGLWETo",
		"PolyMulGLWE",
		"PolyMulGLWETo",
		"PolyMulSubFFTGLWETo",
		"PolyMulSubGLWETo",
		"ScalarMulAddGLWETo",
		"ScalarMulAddLWETo",
		"ScalarMulGLWE",
		"ScalarMulGLWETo",
		"ScalarMulLWE",
		"ScalarMulLWETo",
		"ScalarMulSubGLWETo",
		"ScalarMulSubLWETo",
		"SubFFTGLWE",
		"SubFFTGLWETo",
		"SubGLWE",
		"SubGLWETo",
		"SubLWE",
		"SubLWETo",
		"SubPlainGLWE",
		"SubPlainGLWETo",
		"SubPlainLWE",
		"SubPlainLWETo",
	},
	"mktfhe.GLWETransformer": {
		"FwdFFTGLWECiphertext",
		"FwdFFTGLWECiphertextTo",
		"FwdFFTGLWESecretKey",
		"FwdFFTGLWESecretKeyTo",
		"InvFFTGLWESecretKey",
		"InvFFTGLWESecretKeyTo",
		"InvGLWECiphertext",
		"InvGLWECiphertextTo",
		"PolyEvaluator.AddFFTPoly",
		"PolyEvaluator.AddFFTPolyTo",
		"PolyEvaluator.AddPoly",
		"PolyEvaluator.AddPolyTo",
		"PolyEvaluator.CmplxMulAddFFTPolyTo",
		"PolyEvaluator.CmplxMulFFTPoly",
		"PolyEvaluator.CmplxMulFFTPolyTo",
		"PolyEvaluator.CmplxMulSubFFTPolyTo",
		"PolyEvaluator.FFTPolyMulAddPolyTo",
		"PolyEvaluator.FFTPolyMulPoly",
		"PolyEvaluator.FFTPolyMulPolyTo",
		"PolyEvaluator.FFTPolyMulSubPolyTo",
		"PolyEvaluator.FloatMulAddFFTPolyTo",
		"PolyEvaluator.FloatMulFFTPoly",
		"PolyEvaluator.FloatMulFFTPolyTo",
		"PolyEvaluator.FloatMulSubFFTPolyTo",
		"PolyEvaluator.FwdFFT",
		"PolyEvaluator.FwdFFTAddTo",
		"PolyEvaluator.FwdFFTSubTo",
		"PolyEvaluator.FwdFFTTo",
		"PolyEvaluator.InvFFT",
		"PolyEvaluator.InvFFTAddTo",
		"PolyEvaluator.InvFFTAddToUnsafe",
		"PolyEvaluator.InvFFTSubTo",
		"PolyEvaluator.InvFFTSubToUnsafe",
		"PolyEvaluator.InvFFTTo",
		"PolyEvaluator.InvFFTToUnsafe",
		"PolyEvaluator.MonomialFwdFFT",
		"PolyEvaluator.MonomialFwdFFTTo",
		"PolyEvaluator.MonomialMulAddPolyTo",
		"PolyEvaluator.MonomialMulPoly",
		"PolyEvaluator.MonomialMulPolyInPlace",
		"PolyEvaluator.MonomialMulPolyTo",
		"PolyEvaluator.MonomialMulSubPolyTo",
		"PolyEvaluator.MonomialSubOneFwdFFT",
		"PolyEvaluator.MonomialSubOneFwdFFTTo",
		"PolyEvaluator.MulAddFFTPolyTo",
		"PolyEvaluator.MulAddPolyTo",
		"PolyEvaluator.MulFFTPoly",
		"PolyEvaluator.MulFFTPolyTo",
		"PolyEvaluator.MulPoly",
		"PolyEvaluator.MulPolyTo",
		"PolyEvaluator.MulSubFFTPolyTo",
		"PolyEvaluator.MulSubPolyTo",
		"PolyEvaluator.NegFFTPoly",
		"PolyEvaluator.NegFFTPolyTo",
		"PolyEvaluator.NegPoly",
		"PolyEvaluator.NegPolyTo",
		"PolyEvaluator.NewFFTPoly",
		"PolyEvaluator.NewPoly",
		"PolyEvaluator.PermuteAddFFTPolyTo",
		"PolyEvaluator.PermuteAddPolyTo",
		"PolyEvaluator.PermuteFFTPoly",
		"PolyEvaluator.PermuteFFTPolyInPlace",
		"PolyEvaluator.PermuteFFTPolyTo",
		"PolyEvaluator.PermutePoly",
		"PolyEvaluator.PermutePolyInPlace",
		"PolyEvaluator.PermutePolyTo",
		"PolyEvaluator.PermuteSubFFTPolyTo",
		"PolyEvaluator.PermuteSubPolyTo",
		"PolyEvaluator.PolyMulAddFFTPolyTo",
		"PolyEvaluator.PolyMulFFTPoly",
		"PolyEvaluator.PolyMulFFTPolyTo",
		"PolyEvaluator.PolyMulSubFFTPolyTo",
		"PolyEvaluator.Rank",
		"PolyEvaluator.ScalarMulAddPolyTo",
		"PolyEvaluator.ScalarMulPoly",
		"PolyEvaluator.ScalarMulPolyTo",
		"PolyEvaluator.ScalarMulSubPolyTo",
		"PolyEvaluator.ShortFFTPolyMulAddPolyTo",
		"PolyEvaluator.ShortFFTPolyMulPoly",
		"PolyEvaluator.ShortFFTPolyMulPolyTo",
		"PolyEvaluator.ShortFFTPolyMulSubPolyTo",
		"PolyEvaluator.SubFFTPoly",
		"PolyEvaluator.SubFFTPolyTo",
		"PolyEvaluator.SubPoly",
		"PolyEvaluator.SubPolyTo",
	},
	"poly.Evaluator": {
		"AddFFTPoly",
		"AddFFTPolyTo",
		"AddPoly",
		"AddPolyTo",
		"CmplxMulAddFFTPolyTo",
		"CmplxMulFFTPoly",
		"CmplxMulFFTPolyTo",
		"CmplxMulSubFFTPolyTo",
		"FFTPolyMulAddPolyTo",
		"FFTPolyMulPoly",
		"FFTPolyMulPolyTo",
		"FFTPolyMulSubPolyTo",
		"FloatMulAddFFTPolyTo",
		"FloatMulFFTPoly",
		"FloatMulFFTPolyTo",
		"FloatMulSubFFTPolyTo",
		"FwdFFT",
		"FwdFFTAddTo",
		"FwdFFTSubTo",
		"FwdFFTTo",
		"InvFFT",
		"InvFFTAddTo",
		"InvFFTAddToUnsafe",
		"InvFFTSubTo",
		"InvFFTSubToUnsafe",
		"InvFFTTo",
		"InvFFTToUnsafe",
		"MonomialFwdFFT",
		"MonomialFwdFFTTo",
		"MonomialMulAddPolyTo",
		"MonomialMulPoly",
		"MonomialMulPolyInPlace",
		"MonomialMulPolyTo",
		"MonomialMulSubPolyTo",
		"MonomialSubOneFwdFFT",
		"MonomialSubOneFwdFFTTo",
		"MulAddFFTPolyTo",
		"MulAddPolyTo",
		"MulFFTPoly",
		"MulFFTPolyTo",
		"MulPoly",
		"MulPolyTo",
		"MulSubFFTPolyTo",
		"MulSubPolyTo",
		"NegFFTPoly",
		"NegFFTPolyTo",
		"NegPoly",
		"NegPolyTo",
		"NewFFTPoly",
		"NewPoly",
		"PermuteAddFFTPolyTo",
		"PermuteAddPolyTo",
		"PermuteFFTPoly",
		"PermuteFFTPolyInPlace",
		"PermuteFFTPolyTo",
		"PermutePoly",
		"PermutePolyInPlace",
		"PermutePolyTo",
		"PermuteSubFFTPolyTo",
		"PermuteSubPolyTo",
		"PolyMulAddFFTPolyTo",
		"PolyMulFFTPoly",
		"PolyMulFFTPolyTo",
		"PolyMulSubFFTPolyTo",
		"Rank",
		"ScalarMulAddPolyTo",
		"ScalarMulPoly",
		"ScalarMulPolyTo",
		"ScalarMulSubPolyTo",
		"ShortFFTPolyMulAddPolyTo",
		"ShortFFTPolyMulPoly",
		"ShortFFTPolyMulPolyTo",
		"ShortFFTPolyMulSubPolyTo",
		"SubFFTPoly",
		"SubFFTPolyTo",
		"SubPoly",
		"SubPolyTo",
	},
	"tfhe.BinaryEncryptor": {
		"BinaryEncoder.DecodeLWEBool",
		"BinaryEncoder.EncodeLWEBool",
		"BinaryEncoder.Encoder.DecodeGLWE",
		"BinaryEncoder.Encoder.DecodeGLWECustom",
		"BinaryEncoder.Encoder.DecodeGLWECustomTo",
		"BinaryEncoder.Encoder.DecodeGLWETo",
		"BinaryEncoder.Encoder.DecodeLWE",
		"BinaryEncoder.Encoder.DecodeLWECustom",
		"BinaryEncoder.Encoder.EncodeGLWE",
		"BinaryEncoder.Encoder.EncodeGLWECustom",
		"BinaryEncoder.Encoder.EncodeGLWECustomTo",
		"BinaryEncoder.Encoder.EncodeGLWETo",
		"BinaryEncoder.Encoder.EncodeLWE",
		"BinaryEncoder.Encoder.EncodeLWECustom",
		"DecodeLWEBool",
		"DecryptLWEBits",
		"DecryptLWEBool",
		"EncodeLWEBool",
	},
	"tfhe.BinaryEvaluator": {
		"AND",
		"ANDTo",
		"BinaryEncoder.DecodeLWEBool",
		"BinaryEncoder.EncodeLWEBool",
		"BinaryEncoder.Encoder.DecodeGLWE",
		"BinaryEncoder.Encoder.DecodeGLWECustom",
		"BinaryEncoder.Encoder.DecodeGLWECustomTo",
		"BinaryEncoder.Encoder.DecodeGLWETo",
		"BinaryEncoder.Encoder.DecodeLWE",
		"BinaryEncoder.Encoder.DecodeLWECustom",
		"BinaryEncoder.Encoder.EncodeGLWE",
		"BinaryEncoder.Encoder.EncodeGLWECustom",
		"BinaryEncoder.Encoder.EncodeGLWECustomTo",
		"BinaryEncoder.Encoder.EncodeGLWETo",
		"BinaryEncoder.Encoder.EncodeLWE",
		"BinaryEncoder.Encoder.EncodeLWECustom",
		"DecodeLWEBool",
		"EncodeLWEBool",
		"Evaluator.AddFFTGLWE",
		"Evaluator.AddFFTGLWETo",
		"Evaluator.AddGLWE",
		"Evaluator.AddGLWETo",
		"Evaluator.AddLWE",
		"Evaluator.AddLWETo",
		"Evaluator.AddPlainGLWE",
		"Evaluator.AddPlainGLWETo",
		"Evaluator.AddPlainLWE",
		"Evaluator.AddPlainLWETo",
		"Evaluator.BlindRotate",
		"Evaluator.BlindRotateTo",
		"Evaluator.BootstrapFunc",
		"Evaluator.BootstrapFuncTo",
		"Evaluator.BootstrapLUT",
		"Evaluator.BootstrapLUTTo",
		"Evaluator.CMux",
		"Evaluator.CMuxTo",
		"Evaluator.CmplxMulAddFFTGLWETo",
		"Evaluator.CmplxMulFFTGLWE",
		"Evaluator.CmplxMulFFTGLWETo",
		"Evaluator.CmplxMulSubFFTGLWETo",
		"Evaluator.DecodeGLWE",
		"Evaluator.DecodeGLWECustom",
		"Evaluator.DecodeGLWECustomTo",
		"Evaluator.DecodeGLWETo",
		"Evaluator.DecodeLWE",
		"Evaluator.DecodeLWECustom",
		"Evaluator.Decomposer.DecomposePoly",
		"Evaluator.Decomposer.DecomposePolyTo",
		"Evaluator.Decomposer.DecomposeScalar",
		"Evaluator.Decomposer.DecomposeScalarTo",
		"Evaluator.Decomposer.FourierDecomposePoly",
		"Evaluator.Decomposer.FourierDecomposePolyTo",
		"Evaluator.Decomposer.RecomposePoly",
		"Evaluator.Decomposer.RecomposePolyTo",
		"Evaluator.Decomposer.RecomposeScalar",
		"Evaluator.DefaultKeySwitch",
		"Evaluator.DefaultKeySwitchTo",
		"Evaluator.EncodeGLWE",
		"Evaluator.EncodeGLWECustom",
		"Evaluator.EncodeGLWECustomTo",
		"Evaluator.EncodeGLWETo",
		"Evaluator.EncodeLWE",
		"Evaluator.EncodeLWECustom",
		"Evaluator.ExternalProdAddFFTGLWETo",
		"Evaluator.ExternalProdAddGLWETo",
		"Evaluator.ExternalProdAddLWETo",
		"Evaluator.ExternalProdFFTGLWETo",
		"Evaluator.ExternalProdGLWE",
		"Evaluator.ExternalProdGLWETo",
		"Evaluator.ExternalProdLWE",
		"Evaluator.ExternalProdLWETo",
		"Evaluator.ExternalProdSubFFTGLWETo",
		"Evaluator.ExternalProdSubGLWETo",
		"Evaluator.ExternalProdSubLWETo",
		"Evaluator.FFTPolyMulAddFFTGLWETo",
		"Evaluator.FFTPolyMulAddGLWETo",
		"Evaluator.FFTPolyMulFFTGLWE",
		"Evaluator.FFTPolyMulFFTGLWETo",
		"Evaluator.FFTPolyMulGLWE",
		"Evaluator.FFTPolyMulGLWETo",
		"Evaluator.FFTPolyMulSubFFTGLWETo",
		"Evaluator.FFTPolyMulSubGLWETo",
		"Evaluator.FloatMulAddFFTGLWETo",
		"Evaluator.FloatMulFFTGLWE",
		"Evaluator.FloatMulFFTGLWETo",
		"Evaluator.FloatMulSubFFTGLWETo",
		"Evaluator.FwdFFTGGSWCiphertext",
		"Evaluator.FwdFFTGGSWCiphertextTo",
		"Evaluator.FwdFFTGLWECiphertext",
		"Evaluator.FwdFFTGLWECiphertextTo",
		"Evaluator.FwdFFTGLWESecretKey",
		"Evaluator.FwdFFTGLWESecretKeyTo",
		"Evaluator.FwdFFTGLevCiphertext",
		"Evaluator.FwdFFTGLevCiphertextTo",
		"Evaluator.GLWETransformer.FwdFFTGGSWCiphertext",
		"Evaluator.GLWETransformer.FwdFFTGGSWCiphertextTo",
		"Evaluator.GLWETransformer.FwdFFTGLWECiphertext",
		"Evaluator.GLWETransformer.FwdFFTGLWECiphertextTo",
		"Evaluator.GLWETransformer.FwdFFTGLWESecretKey",
		"Evaluator.GLWETransformer.FwdFFTGLWESecretKeyTo",
		"Evaluator.GLWETransformer.FwdFFTGLevCiphertext",
		"Evaluator.GLWETransformer.FwdFFTGLevCiphertextTo",
		"Evaluator.GLWETransformer.InvFFTGGSWCiphertext",
		"Evaluator.GLWETransformer.InvFFTGGSWCiphertextTo",
		"Evaluator.GLWETransformer.InvFFTGLWECiphertext",
		"Evaluator.GLWETransformer.InvFFTGLWECiphertextTo",
		"Evaluator.GLWETransformer.InvFFTGLWESecretKey",
		"Evaluator.GLWETransformer.InvFFTGLWESecretKeyTo",
		"Evaluator.GLWETransformer.InvFFTGLevCiphertext",
		"Evaluator.GLWETransformer.InvFFTGLevCiphertextTo",
		"Evaluator.GadgetProdAddFFTGLWETo",
		"Evaluator.GadgetProdAddGLWETo",
		"Evaluator.GadgetProdAddLWETo",
		"Evaluator.GadgetProdFFTGLWETo",
		"Evaluator.GadgetProdGLWE",
		"Evaluator.GadgetProdGLWETo",
		"Evaluator.GadgetProdLWE",
		"Evaluator.GadgetProdLWETo",
		"Evaluator.GadgetProdSubFFTGLWETo",
		"Evaluator.GadgetProdSubGLWETo",
		"Evaluator.GadgetProdSubLWETo",
		"Evaluator.GenLUT",
		"Evaluator.GenLUTCustom",
		"Evaluator.GenLUTCustomFull",
		"Evaluator.GenLUTCustomFullTo",
		"Evaluator.GenLUTCustomTo",
		"Evaluator.GenLUTFull",
		"Evaluator.GenLUTFullTo",
		"Evaluator.GenLUTTo",
		"Evaluator.InvFFTGGSWCiphertext",
		"Evaluator.InvFFTGGSWCiphertextTo",
		"Evaluator.InvFFTGLWECiphertext",
		"Evaluator.InvFFTGLWECiphertextTo",
		"Evaluator.InvFFTGLWESecretKey",
		"Evaluator.InvFFTGLWESecretKeyTo",
		"Evaluator.InvFFTGLevCiphertext",
		"Evaluator.InvFFTGLevCiphertextTo",
		"Evaluator.KeySwitchGLWE",
		"Evaluator.KeySwitchGLWETo",
		"Evaluator.KeySwitchLWE",
		"Evaluator.KeySwitchLWETo",
		"Evaluator.ModSwitch",
		"Evaluator.MonomialMulAddGLWETo",
		"Evaluator.MonomialMulGLWE",
		"Evaluator.MonomialMulGLWEInPlace",
		"Evaluator.MonomialMulGLWETo",
		"Evaluator.MonomialMulSubGLWETo",
		"Evaluator.NegFFTGLWE",
		"Evaluator.NegFFTGLWETo",
		"Evaluator.NegGLWE",
		"Evaluator.NegGLWETo",
		"Evaluator.NegLWE",
		"Evaluator.NegLWETo",
		"Evaluator.PermuteAddFFTGLWETo",
		"Evaluator.PermuteAddGLWETo",
		"Evaluator.PermuteFFTGLWE",
		"Evaluator.PermuteFFTGLWEInPlace",
		"Evaluator.PermuteFFTGLWETo",
		"Evaluator.PermuteGLWE",
		"Evaluator.PermuteGLWEInPlace",
		"Evaluator.PermuteGLWETo",
		"Evaluator.PermuteSubFFTGLWETo",
		"Evaluator.PermuteSubGLWETo",
		"Evaluator.PolyEvaluator.AddFFTPoly",
		"Evaluator.PolyEvaluator.AddFFTPolyTo",
		"Evaluator.PolyEvaluator.AddPoly",
		"Evaluator.PolyEvaluator.AddPolyTo",
		"Evaluator.PolyEvaluator.CmplxMulAddFFTPolyTo",
		"Evaluator.PolyEvaluator.CmplxMulFFTPoly",
		"Evaluator.PolyEvaluator.CmplxMulFFTPolyTo",
		"Evaluator.PolyEvaluator.CmplxMulSubFFTPolyTo",
		"Evaluator.PolyEvaluator.FFTPolyMulAddPolyTo",
		"Evaluator.PolyEvaluator.FFTPolyMulPoly",
		"Evaluator.PolyEvaluator.FFTPolyMulPolyTo",
		"Evaluator.PolyEvaluator.FFTPolyMulSubPolyTo",
		"Evaluator.PolyEvaluator.FloatMulAddFFTPolyTo",
		"Evaluator.PolyEvaluator.FloatMulFFTPoly",
		"Evaluator.PolyEvaluator.FloatMulFFTPolyTo",
		"Evaluator.PolyEvaluator.FloatMulSubFFTPolyTo",
		"Evaluator.PolyEvaluator.FwdFFT",
		"Evaluator.PolyEvaluator.FwdFFTAddTo",
		"Evaluator.PolyEvaluator.FwdFFTSubTo",
		"Evaluator.PolyEvaluator.FwdFFTTo",
		"Evaluator.PolyEvaluator.InvFFT",
		"Evaluator.PolyEvaluator.InvFFTAddTo",
		"Evaluator.PolyEvaluator.InvFFTAddToUnsafe",
		"Evaluator.PolyEvaluator.InvFFTSubTo",
		"Evaluator.PolyEvaluator.InvFFTSubToUnsafe",
		"Evaluator.PolyEvaluator.InvFFTTo",
		"Evaluator.PolyEvaluator.InvFFTToUnsafe",
		"Evaluator.PolyEvaluator.MonomialFwdFFT",
		"Evaluator.PolyEvaluator.MonomialFwdFFTTo",
		"Evaluator.PolyEvaluator.MonomialMulAddPolyTo",
		"Evaluator.PolyEvaluator.MonomialMulPoly",
		"Evaluator.PolyEvaluator.MonomialMulPolyInPlace",
		"Evaluator.PolyEvaluator.MonomialMulPolyTo",
		"Evaluator.PolyEvaluator.MonomialMulSubPolyTo",
		"Evaluator.PolyEvaluator.MonomialSubOneFwdFFT",
		"Evaluator.PolyEvaluator.MonomialSubOneFwdFFTTo",
		"Evaluator.PolyEvaluator.MulAddFFTPolyTo",
		"Evaluator.PolyEvaluator.MulAddPolyTo",
		"Evaluator.PolyEvaluator.MulFFTPoly",
		"Evaluator.PolyEvaluator.MulFFTPolyTo",
		"Evaluator.PolyEvaluator.MulPoly",
		"Evaluator.PolyEvaluator.MulPolyTo",
		"Evaluator.PolyEvaluator.MulSubFFTPolyTo",
		"Evaluator.PolyEvaluator.MulSubPolyTo",
		"Evaluator.PolyEvaluator.NegFFTPoly",
		"Evaluator.PolyEvaluator.NegFFTPolyTo",
		"Evaluator.PolyEvaluator.NegPoly",
		"Evaluator.PolyEvaluator.NegPolyTo",
		"Evaluator.PolyEvaluator.NewFFTPoly",
		"Evaluator.PolyEvaluator.NewPoly",
		"Evaluator.PolyEvaluator.PermuteAddFFTPolyTo",
		"Evaluator.PolyEvaluator.PermuteAddPolyTo",
		"Evaluator.PolyEvaluator.PermuteFFTPoly",
		"Evaluator.PolyEvaluator.PermuteFFTPolyInPlace",
		"Evaluator.PolyEvaluator.PermuteFFTPolyTo",
		"Evaluator.PolyEvaluator.PermutePoly",
		"Evaluator.PolyEvaluator.PermutePolyInPlace",
		"Evaluator.PolyEvaluator.PermutePolyTo",
		"Evaluator.PolyEvaluator.PermuteSubFFTPolyTo",
		"Evaluator.PolyEvaluator.PermuteSubPolyTo",
		"Evaluator.PolyEvaluator.PolyMulAddFFTPolyTo",
		"Evaluator.PolyEvaluator.PolyMulFFTPoly",
		"Evaluator.PolyEvaluator.PolyMulFFTPolyTo",
		"Evaluator.PolyEvaluator.PolyMulSubFFTPolyTo",
		"Evaluator.PolyEvaluator.Rank",
		"Evaluator.PolyEvaluator.ScalarMulAddPolyTo",
		"Evaluator.PolyEvaluator.ScalarMulPoly",
		"Evaluator.PolyEvaluator.ScalarMulPolyTo",
		"Evaluator.PolyEvaluator.ScalarMulSubPolyTo",
		"Evaluator.PolyEvaluator.ShortFFTPolyMulAddPolyTo",
		"Evaluator.PolyEvaluator.ShortFFTPolyMulPoly",
		"Evaluator.PolyEvaluator.ShortFFTPolyMulPolyTo",
		"Evaluator.PolyEvaluator.ShortFFTPolyMulSubPolyTo",
		"Evaluator.PolyEvaluator.SubFFTPoly",
		"Evaluator.PolyEvaluator.SubFFTPolyTo",
		"Evaluator.PolyEvaluator.SubPoly",
		"Evaluator.PolyEvaluator.SubPolyTo",
		"Evaluator.PolyMulAddFFTGLWETo",
		"Evaluator.PolyMulAddGLWETo",
		"Evaluator.PolyMulFFTGLWE",
		"Evaluator.PolyMulFFTGLWETo",
		"Evaluator.PolyMulGLWE",
		"Evaluator.PolyMulGLWETo",
		"Evaluator.PolyMulSubFFTGLWETo",
		"Evaluator.PolyMulSubGLWETo",
		"Evaluator.ScalarMulAddGLWETo",
		"Evaluator.ScalarMulAddLWETo",
		"Evaluator.ScalarMulGLWE",
		"Evaluator.ScalarMulGLWETo",
		"Evaluator.ScalarMulLWE",
		"Evaluator.ScalarMulLWETo",
		"Evaluator.ScalarMulSubGLWETo",
		"Evaluator.ScalarMulSubLWETo",
		"Evaluator.SubFFTGLWE",
		"Evaluator.SubFFTGLWETo",
		"Evaluator.SubGLWE",
		"Evaluator.SubGLWETo",
		"Evaluator.SubLWE",
		"Evaluator.SubLWETo",
		"Evaluator.SubPlainGLWE",
		"Evaluator.SubPlainGLWETo",
		"Evaluator.SubPlainLWE",
		"Evaluator.SubPlainLWETo",
		"NAND",
		"NANDTo",
		"NOR",
		"NORTo",
		"NOT",
		"NOTTo",
		"OR",
		"ORTo",
		"XNOR",
		"XNORTo",
		"XOR",
		"XORTo",
	},
	"tfhe.Decomposer": {
		"DecomposePoly",
		"DecomposePolyTo",
		"DecomposeScalar",
		"DecomposeScalarTo",
		"FourierDecomposePoly",
		"FourierDecomposePolyTo",
		"PolyEvaluator.AddFFTPoly",
		"PolyEvaluator.AddFFTPolyTo",
		"PolyEvaluator.AddPoly",
		"PolyEvaluator.AddPolyTo",
		"PolyEvaluator.CmplxMulAddFFTPolyTo",
		"PolyEvaluator.CmplxMulFFTPoly",
		"PolyEvaluator.CmplxMulFFTPolyTo",
		"PolyEvaluator.CmplxMulSubFFTPolyTo",
		"PolyEvaluator.FFTPolyMulAddPolyTo",
		"PolyEvaluator.FFTPolyMulPoly",
		"PolyEvaluator.FFTPolyMulPolyTo",
		"PolyEvaluator.FFTPolyMulSubPolyTo",
		"PolyEvaluator.FloatMulAddFFTPolyTo",
		"PolyEvaluator.FloatMulFFTPoly",
		"PolyEvaluator.FloatMulFFTPolyTo",
		"PolyEvaluator.FloatMulSubFFTPolyTo",
		"PolyEvaluator.FwdFFT",
		"PolyEvaluator.FwdFFTAddTo",
		"PolyEvaluator.FwdFFTSubTo",
		"PolyEvaluator.FwdFFTTo",
		"PolyEvaluator.InvFFT",
		"PolyEvaluator.InvFFTAddTo",
		"PolyEvaluator.InvFFTAddToUnsafe",
		"PolyEvaluator.InvFFTSubTo",
		"PolyEvaluator.InvFFTSubToUnsafe",
		"PolyEvaluator.InvFFTTo",
		"PolyEvaluator.InvFFTToUnsafe",
		"PolyEvaluator.MonomialFwdFFT",
		"PolyEvaluator.MonomialFwdFFTTo",
		"PolyEvaluator.MonomialMulAddPolyTo",
		"PolyEvaluator.MonomialMulPoly",
		"PolyEvaluator.MonomialMulPolyInPlace",
		"PolyEvaluator.MonomialMulPolyTo",
		"PolyEvaluator.MonomialMulSubPolyTo",
		"PolyEvaluator.MonomialSubOneFwdFFT",
		"PolyEvaluator.MonomialSubOneFwdFFTTo",
		"PolyEvaluator.MulAddFFTPolyTo",
		"PolyEvaluator.MulAddPolyTo",
		"PolyEvaluator.MulFFTPoly",
		"PolyEvaluator.MulFFTPolyTo",
		"PolyEvaluator.MulPoly",
		"PolyEvaluator.MulPolyTo",
		"PolyEvaluator.MulSubFFTPolyTo",
		"PolyEvaluator.MulSubPolyTo",
		"PolyEvaluator.NegFFTPoly",
		"PolyEvaluator.NegFFTPolyTo",
		"PolyEvaluator.NegPoly",
		"PolyEvaluator.NegPolyTo",
		"PolyEvaluator.NewFFTPoly",
		"PolyEvaluator.NewPoly",
		"PolyEvaluator.PermuteAddFFTPolyTo",
		"PolyEvaluator.PermuteAddPolyTo",
		"PolyEvaluator.PermuteFFTPoly",
		"PolyEvaluator.PermuteFFTPolyInPlace",
		"PolyEvaluator.PermuteFFTPolyTo",
		"PolyEvaluator.PermutePoly",
		"PolyEvaluator.PermutePolyInPlace",
		"PolyEvaluator.PermutePolyTo",
		"PolyEvaluator.PermuteSubFFTPolyTo",
		"PolyEvaluator.PermuteSubPolyTo",
		"PolyEvaluator.PolyMulAddFFTPolyTo",
		"PolyEvaluator.PolyMulFFTPoly",
		"PolyEvaluator.PolyMulFFTPolyTo",
		"PolyEvaluator.PolyMulSubFFTPolyTo",
		"PolyEvaluator.Rank",
		"PolyEvaluator.ScalarMulAddPolyTo",
		"PolyEvaluator.ScalarMulPoly",
		"PolyEvaluator.ScalarMulPolyTo",
		"PolyEvaluator.ScalarMulSubPolyTo",
		"PolyEvaluator.ShortFFTPolyMulAddPolyTo",
		"PolyEvaluator.ShortFFTPolyMulPoly",
		"PolyEvaluator.ShortFFTPolyMulPolyTo",
		"PolyEvaluator.ShortFFTPolyMulSubPolyTo",
		"PolyEvaluator.SubFFTPoly",
		"PolyEvaluator.SubFFTPolyTo",
		"PolyEvaluator.SubPoly",
		"PolyEvaluator.SubPolyTo",
		"RecomposePoly",
		"RecomposePolyTo",
		"RecomposeScalar",
	},
	"tfhe.Encryptor": {
		"DecodeGLWE",
		"DecodeGLWECustom",
		"DecodeGLWECustomTo",
		"DecodeGLWETo",
		"DecodeLWE",
		"DecodeLWECustom",
		"DecryptFFTGGSW",
		"DecryptFFTGGSWPoly",
		"DecryptFFTGGSWPolyTo",
		"DecryptFFTGGSWTo",
		"DecryptFFTGLWE",
		"DecryptFFTGLWEPhase",
		"DecryptFFTGLWEPhaseTo",
		"DecryptFFTGLWETo",
		"DecryptFFTGLev",
		"DecryptFFTGLevPoly",
		"DecryptFFTGLevPolyTo",
		"DecryptFFTGLevTo",
		"DecryptGGSW",
		"DecryptGGSWPoly",
		"DecryptGGSWPolyTo",
		"DecryptGGSWTo",
		"DecryptGLWE",
		"DecryptGLWEPhase",
		"DecryptGLWEPhaseTo",
		"DecryptGLWETo",
		"DecryptGLev",
		"DecryptGLevPoly",
		"DecryptGLevPolyTo",
		"DecryptGLevTo",
		"DecryptGSW",
		"DecryptGSWScalar",
		"DecryptLWE",
		"DecryptLWEPhase",
		"DecryptLev",
		"DecryptLevScalar",
		"DefaultLWESecretKey",
		"EncodeGLWE",
		"EncodeGLWECustom",
		"EncodeGLWECustomTo",
		"EncodeGLWETo",
		"EncodeLWE",
		"EncodeLWECustom",
		"Encoder.DecodeGLWE",
		"Encoder.DecodeGLWECustom",
		"Encoder.DecodeGLWECustomTo",
		"Encoder.DecodeGLWETo",
		"Encoder.DecodeLWE",
		"Encoder.DecodeLWECustom",
		"Encoder.EncodeGLWE",
		"Encoder.EncodeGLWECustom",
		"Encoder.EncodeGLWECustomTo",
		"Encoder.EncodeGLWETo",
		"Encoder.EncodeLWE",
		"Encoder.EncodeLWECustom",
		"FwdFFTGGSWCiphertext",
		"FwdFFTGGSWCiphertextTo",
		"FwdFFTGLWECiphertext",
		"FwdFFTGLWECiphertextTo",
		"FwdFFTGLWESecretKey",
		"FwdFFTGLWESecretKeyTo",
		"FwdFFTGLevCiphertext",
		"FwdFFTGLevCiphertextTo",
		"GLWETransformer.FwdFFTGGSWCiphertext",
		"GLWETransformer.FwdFFTGGSWCiphertextTo",
		"GLWETransformer.FwdFFTGLWECiphertext",
		"GLWETransformer.FwdFFTGLWECiphertextTo",
		"GLWETransformer.FwdFFTGLWESecretKey",
		"GLWETransformer.FwdFFTGLWESecretKeyTo",
		"GLWETransformer.FwdFFTGLevCiphertext",
		"GLWETransformer.FwdFFTGLevCiphertextTo",
		"GLWETransformer.InvFFTGGSWCiphertext",
		"GLWETransformer.InvFFTGGSWCiphertextTo",
		"GLWETransformer.InvFFTGLWECiphertext",
		"GLWETransformer.InvFFTGLWECiphertextTo",
		"GLWETransformer.InvFFTGLWESecretKey",
		"GLWETransformer.InvFFTGLWESecretKeyTo",
		"GLWETransformer.InvFFTGLevCiphertext",
		"GLWETransformer.InvFFTGLevCiphertextTo",
		"GLWETransformer.PolyEvaluator.AddFFTPoly",
		"GLWETransformer.PolyEvaluator.AddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.AddPoly",
		"GLWETransformer.PolyEvaluator.AddPolyTo",
		"GLWETransformer.PolyEvaluator.CmplxMulAddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.CmplxMulFFTPoly",
		"GLWETransformer.PolyEvaluator.CmplxMulFFTPolyTo",
		"GLWETransformer.PolyEvaluator.CmplxMulSubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.FFTPolyMulAddPolyTo",
		"GLWETransformer.PolyEvaluator.FFTPolyMulPoly",
		"GLWETransformer.PolyEvaluator.FFTPolyMulPolyTo",
		"GLWETransformer.PolyEvaluator.FFTPolyMulSubPolyTo",
		"GLWETransformer.PolyEvaluator.FloatMulAddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.FloatMulFFTPoly",
		"GLWETransformer.PolyEvaluator.FloatMulFFTPolyTo",
		"GLWETransformer.PolyEvaluator.FloatMulSubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.FwdFFT",
		"GLWETransformer.PolyEvaluator.FwdFFTAddTo",
		"GLWETransformer.PolyEvaluator.FwdFFTSubTo",
		"GLWETransformer.PolyEvaluator.FwdFFTTo",
		"GLWETransformer.PolyEvaluator.InvFFT",
		"GLWETransformer.PolyEvaluator.InvFFTAddTo",
		"GLWETransformer.PolyEvaluator.InvFFTAddToUnsafe",
		"GLWETransformer.PolyEvaluator.InvFFTSubTo",
		"GLWETransformer.PolyEvaluator.InvFFTSubToUnsafe",
		"GLWETransformer.PolyEvaluator.InvFFTTo",
		"GLWETransformer.PolyEvaluator.InvFFTToUnsafe",
		"GLWETransformer.PolyEvaluator.MonomialFwdFFT",
		"GLWETransformer.PolyEvaluator.MonomialFwdFFTTo",
		"GLWETransformer.PolyEvaluator.MonomialMulAddPolyTo",
		"GLWETransformer.PolyEvaluator.MonomialMulPoly",
		"GLWETransformer.PolyEvaluator.MonomialMulPolyInPlace",
		"GLWETransformer.PolyEvaluator.MonomialMulPolyTo",
		"GLWETransformer.PolyEvaluator.MonomialMulSubPolyTo",
		"GLWETransformer.PolyEvaluator.MonomialSubOneFwdFFT",
		"GLWETransformer.PolyEvaluator.MonomialSubOneFwdFFTTo",
		"GLWETransformer.PolyEvaluator.MulAddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.MulAddPolyTo",
		"GLWETransformer.PolyEvaluator.MulFFTPoly",
		"GLWETransformer.PolyEvaluator.MulFFTPolyTo",
		"GLWETransformer.PolyEvaluator.MulPoly",
		"GLWETransformer.PolyEvaluator.MulPolyTo",
		"GLWETransformer.PolyEvaluator.MulSubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.MulSubPolyTo",
		"GLWETransformer.PolyEvaluator.NegFFTPoly",
		"GLWETransformer.PolyEvaluator.NegFFTPolyTo",
		"GLWETransformer.PolyEvaluator.NegPoly",
		"GLWETransformer.PolyEvaluator.NegPolyTo",
		"GLWETransformer.PolyEvaluator.NewFFTPoly",
		"GLWETransformer.PolyEvaluator.NewPoly",
		"GLWETransformer.PolyEvaluator.PermuteAddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.PermuteAddPolyTo",
		"GLWETransformer.PolyEvaluator.PermuteFFTPoly",
		"GLWETransformer.PolyEvaluator.PermuteFFTPolyInPlace",
		"GLWETransformer.PolyEvaluator.PermuteFFTPolyTo",
		"GLWETransformer.PolyEvaluator.PermutePoly",
		"GLWETransformer.PolyEvaluator.PermutePolyInPlace",
		"GLWETransformer.PolyEvaluator.PermutePolyTo",
		"GLWETransformer.PolyEvaluator.PermuteSubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.PermuteSubPolyTo",
		"GLWETransformer.PolyEvaluator.PolyMulAddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.PolyMulFFTPoly",
		"GLWETransformer.PolyEvaluator.PolyMulFFTPolyTo",
		"GLWETransformer.PolyEvaluator.PolyMulSubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.Rank",
		"GLWETransformer.PolyEvaluator.ScalarMulAddPolyTo",
		"GLWETransformer.PolyEvaluator.ScalarMulPoly",
		"GLWETransformer.PolyEvaluator.ScalarMulPolyTo",
		"GLWETransformer.PolyEvaluator.ScalarMulSubPolyTo",
		"GLWETransformer.PolyEvaluator.ShortFFTPolyMulAddPolyTo",
		"GLWETransformer.PolyEvaluator.ShortFFTPolyMulPoly",
		"GLWETransformer.PolyEvaluator.ShortFFTPolyMulPolyTo",
		"GLWETransformer.PolyEvaluator.ShortFFTPolyMulSubPolyTo",
		"GLWETransformer.PolyEvaluator.SubFFTPoly",
		"GLWETransformer.PolyEvaluator.SubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.SubPoly",
		"GLWETransformer.PolyEvaluator.SubPolyTo",
		"InvFFTGGSWCiphertext",
		"InvFFTGGSWCiphertextTo",
		"InvFFTGLWECiphertext",
		"InvFFTGLWECiphertextTo",
		"InvFFTGLWESecretKey",
		"InvFFTGLWESecretKeyTo",
		"InvFFTGLevCiphertext",
		"InvFFTGLevCiphertextTo",
	},
	"tfhe.Evaluator": {
		"AddFFTGLWE",
		"AddFFTGLWETo",
		"AddGLWE",
		"AddGLWETo",
		"AddLWE",
		"AddLWETo",
		"AddPlainGLWE",
		"AddPlainGLWETo",
		"AddPlainLWE",
		"AddPlainLWETo",
		"BlindRotate",
		"BlindRotateTo",
		"BootstrapFunc",
		"BootstrapFuncTo",
		"BootstrapLUT",
		"BootstrapLUTTo",
		"CMux",
		"CMuxTo",
		"CmplxMulAddFFTGLWETo",
		"CmplxMulFFTGLWE",
		"CmplxMulFFTGLWETo",
		"CmplxMulSubFFTGLWETo",
		"DecodeGLWE",
		"DecodeGLWECustom",
		"DecodeGLWECustomTo",
		"DecodeGLWETo",
		"DecodeLWE",
		"DecodeLWECustom",
		"Decomposer.DecomposePoly",
		"Decomposer.DecomposePolyTo",
		"Decomposer.DecomposeScalar",
		"Decomposer.DecomposeScalarTo",
		"Decomposer.FourierDecomposePoly",
		"Decomposer.FourierDecomposePolyTo",
		"Decomposer.RecomposePoly",
		"Decomposer.RecomposePolyTo",
		"Decomposer.RecomposeScalar",
		"DefaultKeySwitch",
		"DefaultKeySwitchTo",
		"EncodeGLWE",
		"EncodeGLWECustom",
		"EncodeGLWECustomTo",
		"EncodeGLWETo",
		"EncodeLWE",
		"EncodeLWECustom",
		"Encoder.DecodeGLWE",
		"Encoder.DecodeGLWECustom",
		"Encoder.DecodeGLWECustomTo",
		"Encoder.DecodeGLWETo",
		"Encoder.DecodeLWE",
		"Encoder.DecodeLWECustom",
		"Encoder.EncodeGLWE",
		"Encoder.EncodeGLWECustom",
		"Encoder.EncodeGLWECustomTo",
		"Encoder.EncodeGLWETo",
		"Encoder.EncodeLWE",
		"Encoder.EncodeLWECustom",
		"ExternalProdAddFFTGLWETo",
		"ExternalProdAddGLWETo",
		"ExternalProdAddLWETo",
		"ExternalProdFFTGLWETo",
		"ExternalProdGLWE",
		"ExternalProdGLWETo",
		"ExternalProdLWE",
		"ExternalProdLWETo",
		"ExternalProdSubFFTGLWETo",
		"ExternalProdSubGLWETo",
		"ExternalProdSubLWETo",
		"FFTPolyMulAddFFTGLWETo",
		"FFTPolyMulAddGLWETo",
		"FFTPolyMulFFTGLWE",
		"FFTPolyMulFFTGLWETo",
		"FFTPolyMulGLWE",
		"FFTPolyMulGLWETo",
		"FFTPolyMulSubFFTGLWETo",
		"FFTPolyMulSubGLWETo",
		"FloatMulAddFFTGLWETo",
		"FloatMulFFTGLWE",
		"FloatMulFFTGLWETo",
		"FloatMulSubFFTGLWETo",
		"FwdFFTGGSWCiphertext",
		"FwdFFTGGSWCiphertextTo",
		"FwdFFTGLWECiphertext",
		"FwdFFTGLWECiphertextTo",
		"FwdFFTGLWESecretKey",
		"FwdFFTGLWESecretKeyTo",
		"FwdFFTGLevCiphertext",
		"FwdFFTGLevCiphertextTo",
		"GLWETransformer.FwdFFTGGSWCiphertext",
		"GLWETransformer.FwdFFTGGSWCiphertextTo",
		"GLWETransformer.FwdFFTGLWECiphertext",
		"GLWETransformer.FwdFFTGLWECiphertextTo",
		"GLWETransformer.FwdFFTGLWESecretKey",
		"GLWETransformer.FwdFFTGLWESecretKeyTo",
		"GLWETransformer.FwdFFTGLevCiphertext",
		"GLWETransformer.FwdFFTGLevCiphertextTo",
		"GLWETransformer.InvFFTGGSWCiphertext",
		"GLWETransformer.InvFFTGGSWCiphertextTo",
		"GLWETransformer.InvFFTGLWECiphertext",
		"GLWETransformer.InvFFTGLWECiphertextTo",
		"GLWETransformer.InvFFTGLWESecretKey",
		"GLWETransformer.InvFFTGLWESecretKeyTo",
		"GLWETransformer.InvFFTGLevCiphertext",
		"GLWETransformer.InvFFTGLevCiphertextTo",
		"GLWETransformer.PolyEvaluator.AddFFTPoly",
		"GLWETransformer.PolyEvaluator.AddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.AddPoly",
		"GLWETransformer.PolyEvaluator.AddPolyTo",
		"GLWETransformer.PolyEvaluator.CmplxMulAddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.CmplxMulFFTPoly",
		"GLWETransformer.PolyEvaluator.CmplxMulFFTPolyTo",
		"GLWETransformer.PolyEvaluator.CmplxMulSubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.FFTPolyMulAddPolyTo",
		"GLWETransformer.PolyEvaluator.FFTPolyMulPoly",
		"GLWETransformer.PolyEvaluator.FFTPolyMulPolyTo",
		"GLWETransformer.PolyEvaluator.FFTPolyMulSubPolyTo",
		"GLWETransformer.PolyEvaluator.FloatMulAddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.FloatMulFFTPoly",
		"GLWETransformer.PolyEvaluator.FloatMulFFTPolyTo",
		"GLWETransformer.PolyEvaluator.FloatMulSubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.FwdFFT",
		"GLWETransformer.PolyEvaluator.FwdFFTAddTo",
		"GLWETransformer.PolyEvaluator.FwdFFTSubTo",
		"GLWETransformer.PolyEvaluator.FwdFFTTo",
		"GLWETransformer.PolyEvaluator.InvFFT",
		"GLWETransformer.PolyEvaluator.InvFFTAddTo",
		"GLWETransformer.PolyEvaluator.InvFFTAddToUnsafe",
		"GLWETransformer.PolyEvaluator.InvFFTSubTo",
		"GLWETransformer.PolyEvaluator.InvFFTSubToUnsafe",
		"GLWETransformer.PolyEvaluator.InvFFTTo",
		"GLWETransformer.PolyEvaluator.InvFFTToUnsafe",
		"GLWETransformer.PolyEvaluator.MonomialFwdFFT",
		"GLWETransformer.PolyEvaluator.MonomialFwdFFTTo",
		"GLWETransformer.PolyEvaluator.MonomialMulAddPolyTo",
		"GLWETransformer.PolyEvaluator.MonomialMulPoly",
		"GLWETransformer.PolyEvaluator.MonomialMulPolyInPlace",
		"GLWETransformer.PolyEvaluator.MonomialMulPolyTo",
		"GLWETransformer.PolyEvaluator.MonomialMulSubPolyTo",
		"GLWETransformer.PolyEvaluator.MonomialSubOneFwdFFT",
		"GLWETransformer.PolyEvaluator.MonomialSubOneFwdFFTTo",
		"GLWETransformer.PolyEvaluator.MulAddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.MulAddPolyTo",
		"GLWETransformer.PolyEvaluator.MulFFTPoly",
		"GLWETransformer.PolyEvaluator.MulFFTPolyTo",
		"GLWETransformer.PolyEvaluator.MulPoly",
		"GLWETransformer.PolyEvaluator.MulPolyTo",
		"GLWETransformer.PolyEvaluator.MulSubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.MulSubPolyTo",
		"GLWETransformer.PolyEvaluator.NegFFTPoly",
		"GLWETransformer.PolyEvaluator.NegFFTPolyTo",
		"GLWETransformer.PolyEvaluator.NegPoly",
		"GLWETransformer.PolyEvaluator.NegPolyTo",
		"GLWETransformer.PolyEvaluator.NewFFTPoly",
		"GLWETransformer.PolyEvaluator.NewPoly",
		"GLWETransformer.PolyEvaluator.PermuteAddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.PermuteAddPolyTo",
		"GLWETransformer.PolyEvaluator.PermuteFFTPoly",
		"GLWETransformer.PolyEvaluator.PermuteFFTPolyInPlace",
		"GLWETransformer.PolyEvaluator.PermuteFFTPolyTo",
		"GLWETransformer.PolyEvaluator.PermutePoly",
		"GLWETransformer.PolyEvaluator.PermutePolyInPlace",
		"GLWETransformer.PolyEvaluator.PermutePolyTo",
		"GLWETransformer.PolyEvaluator.PermuteSubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.PermuteSubPolyTo",
		"GLWETransformer.PolyEvaluator.PolyMulAddFFTPolyTo",
		"GLWETransformer.PolyEvaluator.PolyMulFFTPoly",
		"GLWETransformer.PolyEvaluator.PolyMulFFTPolyTo",
		"GLWETransformer.PolyEvaluator.PolyMulSubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.Rank",
		"GLWETransformer.PolyEvaluator.ScalarMulAddPolyTo",
		"GLWETransformer.PolyEvaluator.ScalarMulPoly",
		"GLWETransformer.PolyEvaluator.ScalarMulPolyTo",
		"GLWETransformer.PolyEvaluator.ScalarMulSubPolyTo",
		"GLWETransformer.PolyEvaluator.ShortFFTPolyMulAddPolyTo",
		"GLWETransformer.PolyEvaluator.ShortFFTPolyMulPoly",
		"GLWETransformer.PolyEvaluator.ShortFFTPolyMulPolyTo",
		"GLWETransformer.PolyEvaluator.ShortFFTPolyMulSubPolyTo",
		"GLWETransformer.PolyEvaluator.SubFFTPoly",
		"GLWETransformer.PolyEvaluator.SubFFTPolyTo",
		"GLWETransformer.PolyEvaluator.SubPoly",
		"GLWETransformer.PolyEvaluator.SubPolyTo",
		"GadgetProdAddFFTGLWETo",
		"GadgetProdAddGLWETo",
		"GadgetProdAddLWETo",
		"GadgetProdFFTGLWETo",
		"GadgetProdGLWE",
		"GadgetProdGLWETo",
		"GadgetProdLWE",
		"GadgetProdLWETo",
		"GadgetProdSubFFTGLWETo",
		"GadgetProdSubGLWETo",
		"GadgetProdSubLWETo",
		"GenLUT",
		"GenLUTCustom",
		"GenLUTCustomFull",
		"GenLUTCustomFullTo",
		"GenLUTCustomTo",
		"GenLUTFull",
		"GenLUTFullTo",
		"GenLUTTo",
		"InvFFTGGSWCiphertext",
		"InvFFTGGSWCiphertextTo",
		"InvFFTGLWECiphertext",
		"InvFFTGLWECiphertextTo",
		"InvFFTGLWESecretKey",
		"InvFFTGLWESecretKeyTo",
		"InvFFTGLevCiphertext",
		"InvFFTGLevCiphertextTo",
		"KeySwitchGLWE",
		"KeySwitchGLWETo",
		"KeySwitchLWE",
		"KeySwitchLWETo",
		"ModSwitch",
		"MonomialMulAddGLWETo",
		"MonomialMulGLWE",
		"MonomialMulGLWEInPlace",
		"MonomialMulGLWETo",
		"MonomialMulSubGLWETo",
		"NegFFTGLWE",
		"NegFFTGLWETo",
		"NegGLWE",
		"NegGLWETo",
		"NegLWE",
		"NegLWETo",
		"PermuteAddFFTGLWETo",
		"PermuteAddGLWETo",
		"PermuteFFTGLWE",
		"PermuteFFTGLWEInPlace",
		"PermuteFFTGLWETo",
		"PermuteGLWE",
		"PermuteGLWEInPlace",
		"PermuteGLWETo",
		"PermuteSubFFTGLWETo",
		"PermuteSubGLWETo",
		"PolyMulAddFFTGLWETo",
		"PolyMulAddGLWETo",
		"PolyMulFFTGLWE",
		"PolyMulFFTGLWETo",
		"PolyMulGLWE",
		"PolyMulGLWETo",
		"PolyMulSubFFTGLWETo",
		"PolyMulSubGLWETo",
		"ScalarMulAddGLWETo",
		"ScalarMulAddLWETo",
		"ScalarMulGLWE",
		"ScalarMulGLWETo",
		"ScalarMulLWE",
		"ScalarMulLWETo",
		"ScalarMulSubGLWETo",
		"ScalarMulSubLWETo",
		"SubFFTGLWE",
		"SubFFTGLWETo",
		"SubGLWE",
		"SubGLWETo",
		"SubLWE",
		"SubLWETo",
		"SubPlainGLWE",
		"SubPlainGLWETo",
		"SubPlainLWE",
		"SubPlainLWETo",
	},
	"tfhe.GLWETransformer": {
		"FwdFFTGGSWCiphertext",
		"FwdFFTGGSWCiphertextTo",
		"FwdFFTGLWECiphertext",
		"FwdFFTGLWECiphertextTo",
		"FwdFFTGLWESecretKey",
		"FwdFFTGLWESecretKeyTo",
		"FwdFFTGLevCiphertext",
		"FwdFFTGLevCiphertextTo",
		"InvFFTGGSWCiphertext",
		"InvFFTGGSWCiphertextTo",
		"InvFFTGLWECiphertext",
		"InvFFTGLWECiphertextTo",
		"InvFFTGLWESecretKey",
		"InvFFTGLWESecretKeyTo",
		"InvFFTGLevCiphertext",
		"InvFFTGLevCiphertextTo",
		"PolyEvaluator.AddFFTPoly",
		"PolyEvaluator.AddFFTPolyTo",
		"PolyEvaluator.AddPoly",
		"PolyEvaluator.AddPolyTo",
		"PolyEvaluator.CmplxMulAddFFTPolyTo",
		"PolyEvaluator.CmplxMulFFTPoly",
		"PolyEvaluator.CmplxMulFFTPolyTo",
		"PolyEvaluator.CmplxMulSubFFTPolyTo",
		"PolyEvaluator.FFTPolyMulAddPolyTo",
		"PolyEvaluator.FFTPolyMulPoly",
		"PolyEvaluator.FFTPolyMulPolyTo",
		"PolyEvaluator.FFTPolyMulSubPolyTo",
		"PolyEvaluator.FloatMulAddFFTPolyTo",
		"PolyEvaluator.FloatMulFFTPoly",
		"PolyEvaluator.FloatMulFFTPolyTo",
		"PolyEvaluator.FloatMulSubFFTPolyTo",
		"PolyEvaluator.FwdFFT",
		"PolyEvaluator.FwdFFTAddTo",
		"PolyEvaluator.FwdFFTSubTo",
		"PolyEvaluator.FwdFFTTo",
		"PolyEvaluator.InvFFT",
		"PolyEvaluator.InvFFTAddTo",
		"PolyEvaluator.InvFFTAddToUnsafe",
		"PolyEvaluator.InvFFTSubTo",
		"PolyEvaluator.InvFFTSubToUnsafe",
		"PolyEvaluator.InvFFTTo",
		"PolyEvaluator.InvFFTToUnsafe",
		"PolyEvaluator.MonomialFwdFFT",
		"PolyEvaluator.MonomialFwdFFTTo",
		"PolyEvaluator.MonomialMulAddPolyTo",
		"PolyEvaluator.MonomialMulPoly",
		"PolyEvaluator.MonomialMulPolyInPlace",
		"PolyEvaluator.MonomialMulPolyTo",
		"PolyEvaluator.MonomialMulSubPolyTo",
		"PolyEvaluator.MonomialSubOneFwdFFT",
		"PolyEvaluator.MonomialSubOneFwdFFTTo",
		"PolyEvaluator.MulAddFFTPolyTo",
		"PolyEvaluator.MulAddPolyTo",
		"PolyEvaluator.MulFFTPoly",
		"PolyEvaluator.MulFFTPolyTo",
		"PolyEvaluator.MulPoly",
		"PolyEvaluator.MulPolyTo",
		"PolyEvaluator.MulSubFFTPolyTo",
		"PolyEvaluator.MulSubPolyTo",
		"PolyEvaluator.NegFFTPoly",
		"PolyEvaluator.NegFFTPolyTo",
		"PolyEvaluator.NegPoly",
		"PolyEvaluator.NegPolyTo",
		"PolyEvaluator.NewFFTPoly",
		"PolyEvaluator.NewPoly",
		"PolyEvaluator.PermuteAddFFTPolyTo",
		"PolyEvaluator.PermuteAddPolyTo",
		"PolyEvaluator.PermuteFFTPoly",
		"PolyEvaluator.PermuteFFTPolyInPlace",
		"PolyEvaluator.PermuteFFTPolyTo",
		"PolyEvaluator.PermutePoly",
		"PolyEvaluator.PermutePolyInPlace",
		"PolyEvaluator.PermutePolyTo",
		"PolyEvaluator.PermuteSubFFTPolyTo",
		"PolyEvaluator.PermuteSubPolyTo",
		"PolyEvaluator.PolyMulAddFFTPolyTo",
		"PolyEvaluator.PolyMulFFTPoly",
		"PolyEvaluator.PolyMulFFTPolyTo",
		"PolyEvaluator.PolyMulSubFFTPolyTo",
		"PolyEvaluator.Rank",
		"PolyEvaluator.ScalarMulAddPolyTo",
		"PolyEvaluator.ScalarMulPoly",
		"PolyEvaluator.ScalarMulPolyTo",
		"PolyEvaluator.ScalarMulSubPolyTo",
		"PolyEvaluator.ShortFFTPolyMulAddPolyTo",
		"PolyEvaluator.ShortFFTPolyMulPoly",
		"PolyEvaluator.ShortFFTPolyMulPolyTo",
		"PolyEvaluator.ShortFFTPolyMulSubPolyTo",
		"PolyEvaluator.SubFFTPoly",
		"PolyEvaluator.SubFFTPolyTo",
		"PolyEvaluator.SubPoly",
		"PolyEvaluator.SubPolyTo",
	},
	"xtfhe.BFVEvaluator": {
		"Evaluator.AddFFTGLWE",
		"Evaluator.AddFFTGLWETo",
		"Evaluator.AddGLWE",
		"Evaluator.AddGLWETo",
		"Evaluator.AddLWE",
		"Evaluator.AddLWETo",
		"Evaluator.AddPlainGLWE",
		"Evaluator.AddPlainGLWETo",
		"Evaluator.AddPlainLWE",
		"Evaluator.AddPlainLWETo",
		"Evaluator.CMux",
		"Evaluator.CMuxTo",
		"Evaluator.CmplxMulAddFFTGLWETo",
		"Evaluator.CmplxMulFFTGLWE",
		"Evaluator.CmplxMulFFTGLWETo",
		"Evaluator.CmplxMulSubFFTGLWETo",
		"Evaluator.DecodeGLWE",
		"Evaluator.DecodeGLWECustom",
		"Evaluator.DecodeGLWECustomTo",
		"Evaluator.DecodeGLWETo",
		"Evaluator.DecodeLWE",
		"Evaluator.DecodeLWECustom",
		"Evaluator.Decomposer.DecomposePoly",
		"Evaluator.Decomposer.DecomposePolyTo",
		"Evaluator.Decomposer.DecomposeScalar",
		"Evaluator.Decomposer.DecomposeScalarTo",
		"Evaluator.Decomposer.FourierDecomposePoly",
		"Evaluator.Decomposer.FourierDecomposePolyTo",
		"Evaluator.Decomposer.RecomposePoly",
		"Evaluator.Decomposer.RecomposePolyTo",
		"Evaluator.Decomposer.RecomposeScalar",
		"Evaluator.EncodeGLWE",
		"Evaluator.EncodeGLWECustom",
		"Evaluator.EncodeGLWECustomTo",
		"Evaluator.EncodeGLWETo",
		"Evaluator.EncodeLWE",
		"Evaluator.EncodeLWECustom",
		"Evaluator.Encoder.DecodeGLWE",
		"Evaluator.Encoder.DecodeGLWECustom",
		"Evaluator.Encoder.DecodeGLWECustomTo",
		"Evaluator.Encoder.DecodeGLWETo",
		"Evaluator.Encoder.DecodeLWE",
		"Evaluator.Encoder.DecodeLWECustom",
		"Evaluator.Encoder.EncodeGLWE",
		"Evaluator.Encoder.EncodeGLWECustom",
		"Evaluator.Encoder.EncodeGLWECustomTo",
		"Evaluator.Encoder.EncodeGLWETo",
		"Evaluator.Encoder.EncodeLWE",
		"Evaluator.Encoder.EncodeLWECustom",
		"Evaluator.ExternalProdAddFFTGLWETo",
		"Evaluator.ExternalProdAddGLWETo",
		"Evaluator.ExternalProdAddLWETo",
		"Evaluator.ExternalProdFFTGLWETo",
		"Evaluator.ExternalProdGLWE",
		"Evaluator.ExternalProdGLWETo",
		"Evaluator.ExternalProdLWE",
		"Evaluator.ExternalProdLWETo",
		"Evaluator.ExternalProdSubFFTGLWETo",
		"Evaluator.ExternalProdSubGLWETo",
		"Evaluator.ExternalProdSubLWETo",
		"Evaluator.FFTPolyMulAddFFTGLWETo",
		"Evaluator.FFTPolyMulAddGLWETo",
		"Evaluator.FFTPolyMulFFTGLWE",
		"Evaluator.FFTPolyMulFFTGLWETo",
		"Evaluator.FFTPolyMulGLWE",
		"Evaluator.FFTPolyMulGLWETo",
		"Evaluator.FFTPolyMulSubFFTGLWETo",
		"Evaluator.FFTPolyMulSubGLWETo",
		"Evaluator.FloatMulAddFFTGLWETo",
		"Evaluator.FloatMulFFTGLWE",
		"Evaluator.FloatMulFFTGLWETo",
		"Evaluator.FloatMulSubFFTGLWETo",
		"Evaluator.FwdFFTGGSWCiphertext",
		"Evaluator.FwdFFTGGSWCiphertextTo",
		"Evaluator.FwdFFTGLWECiphertext",
		"Evaluator.FwdFFTGLWECiphertextTo",
		"Evaluator.FwdFFTGLWESecretKey",
		"Evaluator.FwdFFTGLWESecretKeyTo",
		"Evaluator.FwdFFTGLevCiphertext",
		"Evaluator.FwdFFTGLevCiphertextTo",
		"Evaluator.GLWETransformer.FwdFFTGGSWCiphertext",
		"Evaluator.GLWETransformer.FwdFFTGGSWCiphertextTo",
		"Evaluator.GLWETransformer.FwdFFTGLWECiphertext",
		"Evaluator.GLWETransformer.FwdFFTGLWECiphertextTo",
		"Evaluator.GLWETransformer.FwdFFTGLWESecretKey",
		"Evaluator.GLWETransformer.FwdFFTGLWESecretKeyTo",
		"Evaluator.GLWETransformer.FwdFFTGLevCiphertext",
		"Evaluator.GLWETransformer.FwdFFTGLevCiphertextTo",
		"Evaluator.GLWETransformer.InvFFTGGSWCiphertext",
		"Evaluator.GLWETransformer.InvFFTGGSWCiphertextTo",
		"Evaluator.GLWETransformer.InvFFTGLWECiphertext",
		"Evaluator.GLWETransformer.InvFFTGLWECiphertextTo",
		"Evaluator.GLWETransformer.InvFFTGLWESecretKey",
		"Evaluator.GLWETransformer.InvFFTGLWESecretKeyTo",
		"Evaluator.GLWETransformer.InvFFTGLevCiphertext",
		"Evaluator.GLWETransformer.InvFFTGLevCiphertextTo",
		"Evaluator.GadgetProdAddFFTGLWETo",
		"Evaluator.GadgetProdAddGLWETo",
		"Evaluator.GadgetProdAddLWETo",
		"Evaluator.GadgetProdFFTGLWETo",
		"Evaluator.GadgetProdGLWE",
		"Evaluator.GadgetProdGLWETo",
		"Evaluator.GadgetProdLWE",
		"Evaluator.GadgetProdLWETo",
		"Evaluator.GadgetProdSubFFTGLWETo",
		"Evaluator.GadgetProdSubGLWETo",
		"Evaluator.GadgetProdSubLWETo",
		"Evaluator.GenLUT",
		"Evaluator.GenLUTCustom",
		"Evaluator.GenLUTCustomFull",
		"Evaluator.GenLUTCustomFullTo",
		"Evaluator.GenLUTCustomTo",
		"Evaluator.GenLUTFull",
		"Evaluator.GenLUTFullTo",
		"Evaluator.GenLUTTo",
		"Evaluator.InvFFTGGSWCiphertext",
		"Evaluator.InvFFTGGSWCiphertextTo",
		"Evaluator.InvFFTGLWECiphertext",
		"Evaluator.InvFFTGLWECiphertextTo",
		"Evaluator.InvFFTGLWESecretKey",
		"Evaluator.InvFFTGLWESecretKeyTo",
		"Evaluator.InvFFTGLevCiphertext",
		"Evaluator.InvFFTGLevCiphertextTo",
		"Evaluator.KeySwitchGLWE",
		"Evaluator.KeySwitchGLWETo",
		"Evaluator.KeySwitchLWE",
		"Evaluator.KeySwitchLWETo",
		"Evaluator.ModSwitch",
		"Evaluator.MonomialMulAddGLWETo",
		"Evaluator.MonomialMulGLWE",
		"Evaluator.MonomialMulGLWEInPlace",
		"Evaluator.MonomialMulGLWETo",
		"Evaluator.MonomialMulSubGLWETo",
		"Evaluator.NegFFTGLWE",
		"Evaluator.NegFFTGLWETo",
		"Evaluator.NegGLWE",
		"Evaluator.NegGLWETo",
		"Evaluator.NegLWE",
		"Evaluator.NegLWETo",
		"Evaluator.PermuteAddFFTGLWETo",
		"Evaluator.PermuteAddGLWETo",
		"Evaluator.PermuteFFTGLWE",
		"Evaluator.PermuteFFTGLWEInPlace",
		"Evaluator.PermuteFFTGLWETo",
		"Evaluator.PermuteGLWE",
		"Evaluator.PermuteGLWEInPlace",
		"Evaluator.PermuteGLWETo",
		"Evaluator.PermuteSubFFTGLWETo",
		"Evaluator.PermuteSubGLWETo",
		"Evaluator.PolyEvaluator.AddFFTPoly",
		"Evaluator.PolyEvaluator.AddFFTPolyTo",
		"Evaluator.PolyEvaluator.AddPoly",
		"Evaluator.PolyEvaluator.AddPolyTo",
		"Evaluator.PolyEvaluator.CmplxMulAddFFTPolyTo",
		"Evaluator.PolyEvaluator.CmplxMulFFTPoly",
		"Evaluator.PolyEvaluator.CmplxMulFFTPolyTo",
		"Evaluator.PolyEvaluator.CmplxMulSubFFTPolyTo",
		"Evaluator.PolyEvaluator.FFTPolyMulAddPolyTo",
		"Evaluator.PolyEvaluator.FFTPolyMulPoly",
		"Evaluator.PolyEvaluator.FFTPolyMulPolyTo",
		"Evaluator.PolyEvaluator.FFTPolyMulSubPolyTo",
		"Evaluator.PolyEvaluator.FloatMulAddFFTPolyTo",
		"Evaluator.PolyEvaluator.FloatMulFFTPoly",
		"Evaluator.PolyEvaluator.FloatMulFFTPolyTo",
		"Evaluator.PolyEvaluator.FloatMulSubFFTPolyTo",
		"Evaluator.PolyEvaluator.FwdFFT",
		"Evaluator.PolyEvaluator.FwdFFTAddTo",
		"Evaluator.PolyEvaluator.FwdFFTSubTo",
		"Evaluator.PolyEvaluator.FwdFFTTo",
		"Evaluator.PolyEvaluator.InvFFT",
		"Evaluator.PolyEvaluator.InvFFTAddTo",
		"Evaluator.PolyEvaluator.InvFFTAddToUnsafe",
		"Evaluator.PolyEvaluator.InvFFTSubTo",
		"Evaluator.PolyEvaluator.InvFFTSubToUnsafe",
		"Evaluator.PolyEvaluator.InvFFTTo",
		"Evaluator.PolyEvaluator.InvFFTToUnsafe",
		"Evaluator.PolyEvaluator.MonomialFwdFFT",
		"Evaluator.PolyEvaluator.MonomialFwdFFTTo",
		"Evaluator.PolyEvaluator.MonomialMulAddPolyTo",
		"Evaluator.PolyEvaluator.MonomialMulPoly",
		"Evaluator.PolyEvaluator.MonomialMulPolyInPlace",
		"Evaluator.PolyEvaluator.MonomialMulPolyTo",
		"Evaluator.PolyEvaluator.MonomialMulSubPolyTo",
		"Evaluator.PolyEvaluator.MonomialSubOneFwdFFT",
		"Evaluator.PolyEvaluator.MonomialSubOneFwdFFTTo",
		"Evaluator.PolyEvaluator.MulAddFFTPolyTo",
		"Evaluator.PolyEvaluator.MulAddPolyTo",
		"Evaluator.PolyEvaluator.MulFFTPoly",
		"Evaluator.PolyEvaluator.MulFFTPolyTo",
		"Evaluator.PolyEvaluator.MulPoly",
		"Evaluator.PolyEvaluator.MulPolyTo",
		"Evaluator.PolyEvaluator.MulSubFFTPolyTo",
		"Evaluator.PolyEvaluator.MulSubPolyTo",
		"Evaluator.PolyEvaluator.NegFFTPoly",
		"Evaluator.PolyEvaluator.NegFFTPolyTo",
		"Evaluator.PolyEvaluator.NegPoly",
		"Evaluator.PolyEvaluator.NegPolyTo",
		"Evaluator.PolyEvaluator.NewFFTPoly",
		"Evaluator.PolyEvaluator.NewPoly",
		"Evaluator.PolyEvaluator.PermuteAddFFTPolyTo",
		"Evaluator.PolyEvaluator.PermuteAddPolyTo",
		"Evaluator.PolyEvaluator.PermuteFFTPoly",
		"Evaluator.PolyEvaluator.PermuteFFTPolyInPlace",
		"Evaluator.PolyEvaluator.PermuteFFTPolyTo",
		"Evaluator.PolyEvaluator.PermutePoly",
		"Evaluator.PolyEvaluator.PermutePolyInPlace",
		"Evaluator.PolyEvaluator.PermutePolyTo",
		"Evaluator.PolyEvaluator.PermuteSubFFTPolyTo",
		"Evaluator.PolyEvaluator.PermuteSubPolyTo",
		"Evaluator.PolyEvaluator.PolyMulAddFFTPolyTo",
		"Evaluator.PolyEvaluator.PolyMulFFTPoly",
		"Evaluator.PolyEvaluator.PolyMulFFTPolyTo",
		"Evaluator.PolyEvaluator.PolyMulSubFFTPolyTo",
		"Evaluator.PolyEvaluator.Rank",
		"Evaluator.PolyEvaluator.ScalarMulAddPolyTo",
		"Evaluator.PolyEvaluator.ScalarMulPoly",
		"Evaluator.PolyEvaluator.ScalarMulPolyTo",
		"Evaluator.PolyEvaluator.ScalarMulSubPolyTo",
		"Evaluator.PolyEvaluator.ShortFFTPolyMulAddPolyTo",
		"Evaluator.PolyEvaluator.ShortFFTPolyMulPoly",
		"Evaluator.PolyEvaluator.ShortFFTPolyMulPolyTo",
		"Evaluator.PolyEvaluator.ShortFFTPolyMulSubPolyTo",
		"Evaluator.PolyEvaluator.SubFFTPoly",
		"Evaluator.PolyEvaluator.SubFFTPolyTo",
		"Evaluator.PolyEvaluator.SubPoly",
		"Evaluator.PolyEvaluator.SubPolyTo",
		"Evaluator.PolyMulAddFFTGLWETo",
		"Evaluator.PolyMulAddGLWETo",
		"Evaluator.PolyMulFFTGLWE",
		"Evaluator.PolyMulFFTGLWETo",
		"Evaluator.PolyMulGLWE",
		"Evaluator.PolyMulGLWETo",
		"Evaluator.PolyMulSubFFTGLWETo",
		"Evaluator.PolyMulSubGLWETo",
		"Evaluator.ScalarMulAddGLWETo",
		"Evaluator.ScalarMulAddLWETo",
		"Evaluator.ScalarMulGLWE",
		"Evaluator.ScalarMulGLWETo",
		"Evaluator.ScalarMulLWE",
		"Evaluator.ScalarMulLWETo",
		"Evaluator.ScalarMulSubGLWETo",
		"Evaluator.ScalarMulSubLWETo",
		"Evaluator.SubFFTGLWE",
		"Evaluator.SubFFTGLWETo",
		"Evaluator.SubGLWE",
		"Evaluator.SubGLWETo",
		"Evaluator.SubLWE",
		"Evaluator.SubLWETo",
		"Evaluator.SubPlainGLWE",
		"Evaluator.SubPlainGLWETo",
		"Evaluator.SubPlainLWE",
		"Evaluator.SubPlainLWETo",
		"Mul",
		"MulTo",
		"Pack",
		"PackTo",
		"Permute",
		"PermuteTo",
		"Relinearize",
		"RelinearizeTo",
		"Tensor",
		"TensorTo",
	},
	"xtfhe.CircuitBootstrapper": {
		"AddFFTGLWE",
		"AddFFTGLWETo",
		"AddGLWE",
		"AddGLWETo",
		"AddLWE",
		"AddLWETo",
		"AddPlainGLWE",
		"AddPlainGLWETo",
		"AddPlainLWE",
		"AddPlainLWETo",
		"BFVEvaluator.Pack",
		"BFVEvaluator.PackTo",
		"BFVEvaluator.Permute",
		"BFVEvaluator.PermuteTo",
		"BFVEvaluator.PolyEvaluator.AddFFTPoly",
		"BFVEvaluator.PolyEvaluator.AddFFTPolyTo",
		"BFVEvaluator.PolyEvaluator.AddPoly",
		"BFVEvaluator.PolyEvaluator.AddPolyTo",
		"BFVEvaluator.PolyEvaluator.CmplxMulAddFFTPolyTo",
		"BFVEvaluator.PolyEvaluator.CmplxMulFFTPoly",
		"BFVEvaluator.PolyEvaluator.CmplxMulFFTPolyTo",
		"BFVEvaluator.PolyEvaluator.CmplxMulSubFFTPolyTo",
		"BFVEvaluator.PolyEvaluator.FFTPolyMulAddPolyTo",
		"BFVEvaluator.PolyEvaluator.FFTPolyMulPoly",
		"BFVEvaluator.PolyEvaluator.FFTPolyMulPolyTo",
		"BFVEvaluator.PolyEvaluator.FFTPolyMulSubPolyTo",
		"BFVEvaluator.PolyEvaluator.FloatMulAddFFTPolyTo",
		"BFVEvaluator.PolyEvaluator.FloatMulFFTPoly",
		"BFVEvaluator.PolyEvaluator.FloatMulFFTPolyTo",
		"BFVEvaluator.PolyEvaluator.FloatMulSubFFTPolyTo",
		"BFVEvaluator.PolyEvaluator.FwdFFT",
		"BFVEvaluator.PolyEvaluator.FwdFFTAddTo",
		"BFVEvaluator.PolyEvaluator.FwdFFTSubTo",
		"BFVEvaluator.PolyEvaluator.FwdFFTTo",
		"BFVEvaluator.PolyEvaluator.InvFFT",
		"BFVEvaluator.PolyEvaluator.InvFFTAddTo",
		"BFVEvaluator.PolyEvaluator.InvFFTAddToUnsafe",
		"BFVEvaluator.PolyEvaluator.InvFFTSubTo",
		"BFVEvaluator.PolyEvaluator.InvFFTSubToUnsafe",
		"BFVEvaluator.PolyEvaluator.InvFFTTo",
		"BFVEvaluator.PolyEvaluator.InvFFTToUnsafe",
		"BFVEvaluator.PolyEvaluator.MonomialFwdFFT",
		"BFVEvaluator.PolyEvaluator.MonomialFwdFFTTo",
		"BFVEvaluator.PolyEvaluator.MonomialMulAddPolyTo",
		"BFVEvaluator.PolyEvaluator.MonomialMulPoly",
		"BFVEvaluator.PolyEvaluator.MonomialMulPolyInPlace",
		"BFVEvaluator.PolyEvaluator.MonomialMulPolyTo",
		"BFVEvaluator.PolyEvaluator.MonomialMulSubPolyTo",
		"BFVEvaluator.PolyEvaluator.MonomialSubOneFwdFFT",
		"BFVEvaluator.PolyEvaluator.MonomialSubOneFwdFFTTo",
		"BFVEvaluator.PolyEvaluator.MulAddFFTPolyTo",
		"BFVEvaluator.PolyEvaluator.MulAddPolyTo",
		"BFVEvaluator.PolyEvaluator.MulFFTPoly",
		"BFVEvaluator.PolyEvaluator.MulFFTPolyTo",
		"BFVEvaluator.PolyEvaluator.MulPoly",
		"BFVEvaluator.PolyEvaluator.MulPolyTo",
		"BFVEvaluator.PolyEvaluator.MulSubFFTPolyTo",
		"BFVEvaluator.PolyEvaluator.MulSubPolyTo",
		"BFVEvaluator.PolyEvaluator.NegFFTPoly",
		"BFVEvaluator.PolyEvaluator.NegFFTPolyTo",
		"BFVEvaluator.PolyEvaluator.NegPoly",
		"BFVEvaluator.PolyEvaluator.NegPolyTo",
		"BFVEvaluator.PolyEvaluator.NewFFTPoly",
		"BFVEvaluator.PolyEvaluator.NewPoly",
		"BFVEvaluator.PolyEvaluator.PermuteAddFFTPolyTo",
		"BFVEvaluator.PolyEvaluator.PermuteAddPolyTo",
		"BFVEvaluator.PolyEvaluator.PermuteFFTPoly",
		"BFVEvaluator.PolyEvaluator.PermuteFFTPolyInPlace",
		"BFVEvaluator.PolyEvaluator.PermuteFFTPolyTo",
		"BFVEvaluator.PolyEvaluator.PermutePoly",
		"BFVEvaluator.PolyEvaluator.PermutePolyInPlace",
		"BFVEvaluator.PolyEvaluator.PermutePolyTo",
		"BFVEvaluator.PolyEvaluator.PermuteSubFFTPolyTo",
		"BFVEvaluator.PolyEvaluator.PermuteSubPolyTo",
		"BFVEvaluator.PolyEvaluator.PolyMulAddFFTPolyTo",
		"BFVEvaluator.PolyEvaluator.PolyMulFFTPoly",
		"BFVEvaluator.PolyEvaluator.PolyMulFFTPolyTo",
		"BFVEvaluator.PolyEvaluator.PolyMulSubFFTPolyTo",
		"BFVEvaluator.PolyEvaluator.Rank",
		"BFVEvaluator.PolyEvaluator.ScalarMulAddPolyTo",
		"BFVEvaluator.PolyEvaluator.ScalarMulPoly",
		"BFVEvaluator.PolyEvaluator.ScalarMulPolyTo",
		"BFVEvaluator.PolyEvaluator.ScalarMulSubPolyTo",
		"BFVEvaluator.PolyEvaluator.ShortFFTPolyMulAddPolyTo",
		"BFVEvaluator.PolyEvaluator.ShortFFTPolyMulPoly",
		"BFVEvaluator.PolyEvaluator.ShortFFTPolyMulPolyTo",
		"BFVEvaluator.PolyEvaluator.ShortFFTPolyMulSubPolyTo",
		"BFVEvaluator.PolyEvaluator.SubFFTPoly",
		"BFVEvaluator.PolyEvaluator.SubFFTPolyTo",
		"BFVEvaluator.PolyEvaluator.SubPoly",
		"BFVEvaluator.PolyEvaluator.SubPolyTo",
		"BFVEvaluator.Tensor",
		"BFVEvaluator.TensorTo",
		"BlindRotate",
		"BlindRotateTo",
		"BootstrapFunc",
		"BootstrapFuncTo",
		"BootstrapLUT",
		"BootstrapLUTTo",
		"CMux",
		"CMuxTo",
		"CircuitBootstrap",
		"CircuitBootstrapTo",
		"CmplxMulAddFFTGLWETo",
		"CmplxMulFFTGLWE",
		"CmplxMulFFTGLWETo",
		"CmplxMulSubFFTGLWETo",
		"DecodeGLWE",
		"DecodeGLWECustom",
		"DecodeGLWECustomTo",
		"DecodeGLWETo",
		"DecodeLWE",
		"DecodeLWECustom",
		"Decomposer.DecomposePoly",
		"Decomposer.DecomposePolyTo",
		"Decomposer.DecomposeScalar",
		"Decomposer.DecomposeScalarTo",
		"Decomposer.FourierDecomposePoly",
		"Decomposer.FourierDecomposePolyTo",
		"Decomposer.RecomposePoly",
		"Decomposer.RecomposePolyTo",
		"Decomposer.RecomposeScalar",
		"DefaultKeySwitch",
		"DefaultKeySwitchTo",
		"EncodeGLWE",
		"EncodeGLWECustom",
		"EncodeGLWECustomTo",
		"EncodeGLWETo",
		"EncodeLWE",
		"EncodeLWECustom",
		"ExternalProdAddFFTGLWETo",
		"ExternalProdAddGLWETo",
		"ExternalProdAddLWETo",
		"ExternalProdFFTGLWETo",
		"ExternalProdGLWE",
		"ExternalProdGLWETo",
		"ExternalProdLWE",
		"ExternalProdLWETo",
		"ExternalProdSubFFTGLWETo",
		"ExternalProdSubGLWETo",
		"ExternalProdSubLWETo",
		"FFTPolyMulAddFFTGLWETo",
		"FFTPolyMulAddGLWETo",
		"FFTPolyMulFFTGLWE",
		"FFTPolyMulFFTGLWETo",
		"FFTPolyMulGLWE",
		"FFTPolyMulGLWETo",
		"FFTPolyMulSubFFTGLWETo",
		"FFTPolyMulSubGLWETo",
		"FloatMulAddFFTGLWETo",
		"FloatMulFFTGLWE",
		"FloatMulFFTGLWETo",
		"FloatMulSubFFTGLWETo",
		"FwdFFTGGSWCiphertext",
		"FwdFFTGGSWCiphertextTo",
		"FwdFFTGLWECiphertext",
		"FwdFFTGLWECiphertextTo",
		"FwdFFTGLWESecretKey",
		"FwdFFTGLWESecretKeyTo",
		"FwdFFTGLevCiphertext",
		"FwdFFTGLevCiphertextTo",
		"GadgetProdAddFFTGLWETo",
		"GadgetProdAddGLWETo",
		"GadgetProdAddLWETo",
		"GadgetProdFFTGLWETo",
		"GadgetProdGLWE",
		"GadgetProdGLWETo",
		"GadgetProdLWE",
		"GadgetProdLWETo",
		"GadgetProdSubFFTGLWETo",
		"GadgetProdSubGLWETo",
		"GadgetProdSubLWETo",
		"GenLUT",
		"GenLUTCustom",
		"GenLUTCustomFull",
		"GenLUTCustomFullTo",
		"GenLUTCustomTo",
		"GenLUTFull",
		"GenLUTFullTo",
		"GenLUTTo",
		"InvFFTGGSWCiphertext",
		"InvFFTGGSWCiphertextTo",
		"InvFFTGLWECiphertext",
		"InvFFTGLWECiphertextTo",
		"InvFFTGLWESecretKey",
		"InvFFTGLWESecretKeyTo",
		"InvFFTGLevCiphertext",
		"InvFFTGLevCiphertextTo",
		"KeySwitchGLWE",
		"KeySwitchGLWETo",
		"KeySwitchLWE",
		"KeySwitchLWETo",
		"ManyLUTEvaluator.AddFFTGLWE",
		"ManyLUTEvaluator.AddFFTGLWETo",
		"ManyLUTEvaluator.AddGLWE",
		"ManyLUTEvaluator.AddGLWETo",
		"ManyLUTEvaluator.AddLWE",
		"ManyLUTEvaluator.AddLWETo",
		"ManyLUTEvaluator.AddPlainGLWE",
		"ManyLUTEvaluator.AddPlainGLWETo",
		"ManyLUTEvaluator.AddPlainLWE",
		"ManyLUTEvaluator.AddPlainLWETo",
		"ManyLUTEvaluator.BlindRotate",
		"ManyLUTEvaluator.BlindRotateTo",
		"ManyLUTEvaluator.BootstrapFunc",
		"ManyLUTEvaluator.BootstrapFuncTo",
		"ManyLUTEvaluator.BootstrapLUT",
		"ManyLUTEvaluator.BootstrapLUTTo",
		"ManyLUTEvaluator.CMux",
		"ManyLUTEvaluator.CMuxTo",
		"ManyLUTEvaluator.CmplxMulAddFFTGLWETo",
		"ManyLUTEvaluator.CmplxMulFFTGLWE",
		"ManyLUTEvaluator.CmplxMulFFTGLWETo",
		"ManyLUTEvaluator.CmplxMulSubFFTGLWETo",
		"ManyLUTEvaluator.DecodeGLWE",
		"ManyLUTEvaluator.DecodeGLWECustom",
		"ManyLUTEvaluator.DecodeGLWECustomTo",
		"ManyLUTEvaluator.DecodeGLWETo",
		"ManyLUTEvaluator.DecodeLWE",
		"ManyLUTEvaluator.DecodeLWECustom",
		"ManyLUTEvaluator.DefaultKeySwitch",
		"ManyLUTEvaluator.DefaultKeySwitchTo",
		"ManyLUTEvaluator.EncodeGLWE",
		"ManyLUTEvaluator.EncodeGLWECustom",
		"ManyLUTEvaluator.EncodeGLWECustomTo",
		"ManyLUTEvaluator.EncodeGLWETo",
		"ManyLUTEvaluator.EncodeLWE",
		"ManyLUTEvaluator.EncodeLWECustom",
		"ManyLUTEvaluator.Evaluator.AddFFTGLWE",
		"ManyLUTEvaluator.Evaluator.AddFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.AddGLWE",
		"ManyLUTEvaluator.Evaluator.AddGLWETo",
		"ManyLUTEvaluator.Evaluator.AddLWE",
		"ManyLUTEvaluator.Evaluator.AddLWETo",
		"ManyLUTEvaluator.Evaluator.AddPlainGLWE",
		"ManyLUTEvaluator.Evaluator.AddPlainGLWETo",
		"ManyLUTEvaluator.Evaluator.AddPlainLWE",
		"ManyLUTEvaluator.Evaluator.AddPlainLWETo",
		"ManyLUTEvaluator.Evaluator.BlindRotate",
		"ManyLUTEvaluator.Evaluator.BlindRotateTo",
		"ManyLUTEvaluator.Evaluator.BootstrapFunc",
		"ManyLUTEvaluator.Evaluator.BootstrapFuncTo",
		"ManyLUTEvaluator.Evaluator.BootstrapLUT",
		"ManyLUTEvaluator.Evaluator.BootstrapLUTTo",
		"ManyLUTEvaluator.Evaluator.CMux",
		"ManyLUTEvaluator.Evaluator.CMuxTo",
		"ManyLUTEvaluator.Evaluator.CmplxMulAddFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.CmplxMulFFTGLWE",
		"ManyLUTEvaluator.Evaluator.CmplxMulFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.CmplxMulSubFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.DecodeGLWE",
		"ManyLUTEvaluator.Evaluator.DecodeGLWECustom",
		"ManyLUTEvaluator.Evaluator.DecodeGLWECustomTo",
		"ManyLUTEvaluator.Evaluator.DecodeGLWETo",
		"ManyLUTEvaluator.Evaluator.DecodeLWE",
		"ManyLUTEvaluator.Evaluator.DecodeLWECustom",
		"ManyLUTEvaluator.Evaluator.DefaultKeySwitch",
		"ManyLUTEvaluator.Evaluator.DefaultKeySwitchTo",
		"ManyLUTEvaluator.Evaluator.EncodeGLWE",
		"ManyLUTEvaluator.Evaluator.EncodeGLWECustom",
		"ManyLUTEvaluator.Evaluator.EncodeGLWECustomTo",
		"ManyLUTEvaluator.Evaluator.EncodeGLWETo",
		"ManyLUTEvaluator.Evaluator.EncodeLWE",
		"ManyLUTEvaluator.Evaluator.EncodeLWECustom",
		"ManyLUTEvaluator.Evaluator.ExternalProdAddFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.ExternalProdAddGLWETo",
		"ManyLUTEvaluator.Evaluator.ExternalProdAddLWETo",
		"ManyLUTEvaluator.Evaluator.ExternalProdFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.ExternalProdGLWE",
		"ManyLUTEvaluator.Evaluator.ExternalProdGLWETo",
		"ManyLUTEvaluator.Evaluator.ExternalProdLWE",
		"ManyLUTEvaluator.Evaluator.ExternalProdLWETo",
		"ManyLUTEvaluator.Evaluator.ExternalProdSubFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.ExternalProdSubGLWETo",
		"ManyLUTEvaluator.Evaluator.ExternalProdSubLWETo",
		"ManyLUTEvaluator.Evaluator.FFTPolyMulAddFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.FFTPolyMulAddGLWETo",
		"ManyLUTEvaluator.Evaluator.FFTPolyMulFFTGLWE",
		"ManyLUTEvaluator.Evaluator.FFTPolyMulFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.FFTPolyMulGLWE",
		"ManyLUTEvaluator.Evaluator.FFTPolyMulGLWETo",
		"ManyLUTEvaluator.Evaluator.FFTPolyMulSubFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.FFTPolyMulSubGLWETo",
		"ManyLUTEvaluator.Evaluator.FloatMulAddFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.FloatMulFFTGLWE",
		"ManyLUTEvaluator.Evaluator.FloatMulFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.FloatMulSubFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.FwdFFTGGSWCiphertext",
		"ManyLUTEvaluator.Evaluator.FwdFFTGGSWCiphertextTo",
		"ManyLUTEvaluator.Evaluator.FwdFFTGLWECiphertext",
		"ManyLUTEvaluator.Evaluator.FwdFFTGLWECiphertextTo",
		"ManyLUTEvaluator.Evaluator.FwdFFTGLWESecretKey",
		"ManyLUTEvaluator.Evaluator.FwdFFTGLWESecretKeyTo",
		"ManyLUTEvaluator.Evaluator.FwdFFTGLevCiphertext",
		"ManyLUTEvaluator.Evaluator.FwdFFTGLevCiphertextTo",
		"ManyLUTEvaluator.Evaluator.GadgetProdAddFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.GadgetProdAddGLWETo",
		"ManyLUTEvaluator.Evaluator.GadgetProdAddLWETo",
		"ManyLUTEvaluator.Evaluator.GadgetProdFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.GadgetProdGLWE",
		"ManyLUTEvaluator.Evaluator.GadgetProdGLWETo",
		"ManyLUTEvaluator.Evaluator.GadgetProdLWE",
		"ManyLUTEvaluator.Evaluator.GadgetProdLWETo",
		"ManyLUTEvaluator.Evaluator.GadgetProdSubFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.GadgetProdSubGLWETo",
		"ManyLUTEvaluator.Evaluator.GadgetProdSubLWETo",
		"ManyLUTEvaluator.Evaluator.GenLUT",
		"ManyLUTEvaluator.Evaluator.GenLUTCustom",
		"ManyLUTEvaluator.Evaluator.GenLUTCustomFull",
		"ManyLUTEvaluator.Evaluator.GenLUTCustomFullTo",
		"ManyLUTEvaluator.Evaluator.GenLUTCustomTo",
		"ManyLUTEvaluator.Evaluator.GenLUTFull",
		"ManyLUTEvaluator.Evaluator.GenLUTFullTo",
		"ManyLUTEvaluator.Evaluator.GenLUTTo",
		"ManyLUTEvaluator.Evaluator.InvFFTGGSWCiphertext",
		"ManyLUTEvaluator.Evaluator.InvFFTGGSWCiphertextTo",
		"ManyLUTEvaluator.Evaluator.InvFFTGLWECiphertext",
		"ManyLUTEvaluator.Evaluator.InvFFTGLWECiphertextTo",
		"ManyLUTEvaluator.Evaluator.InvFFTGLWESecretKey",
		"ManyLUTEvaluator.Evaluator.InvFFTGLWESecretKeyTo",
		"ManyLUTEvaluator.Evaluator.InvFFTGLevCiphertext",
		"ManyLUTEvaluator.Evaluator.InvFFTGLevCiphertextTo",
		"ManyLUTEvaluator.Evaluator.KeySwitchGLWE",
		"ManyLUTEvaluator.Evaluator.KeySwitchGLWETo",
		"ManyLUTEvaluator.Evaluator.KeySwitchLWE",
		"ManyLUTEvaluator.Evaluator.KeySwitchLWETo",
		"ManyLUTEvaluator.Evaluator.ModSwitch",
		"ManyLUTEvaluator.Evaluator.MonomialMulAddGLWETo",
		"ManyLUTEvaluator.Evaluator.MonomialMulGLWE",
		"ManyLUTEvaluator.Evaluator.MonomialMulGLWEInPlace",
		"ManyLUTEvaluator.Evaluator.MonomialMulGLWETo",
		"ManyLUTEvaluator.Evaluator.MonomialMulSubGLWETo",
		"ManyLUTEvaluator.Evaluator.NegFFTGLWE",
		"ManyLUTEvaluator.Evaluator.NegFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.NegGLWE",
		"ManyLUTEvaluator.Evaluator.NegGLWETo",
		"ManyLUTEvaluator.Evaluator.NegLWE",
		"ManyLUTEvaluator.Evaluator.NegLWETo",
		"ManyLUTEvaluator.Evaluator.PermuteAddFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.PermuteAddGLWETo",
		"ManyLUTEvaluator.Evaluator.PermuteFFTGLWE",
		"ManyLUTEvaluator.Evaluator.PermuteFFTGLWEInPlace",
		"ManyLUTEvaluator.Evaluator.PermuteFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.PermuteGLWE",
		"ManyLUTEvaluator.Evaluator.PermuteGLWEInPlace",
		"ManyLUTEvaluator.Evaluator.PermuteGLWETo",
		"ManyLUTEvaluator.Evaluator.PermuteSubFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.PermuteSubGLWETo",
		"ManyLUTEvaluator.Evaluator.PolyMulAddFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.PolyMulAddGLWETo",
		"ManyLUTEvaluator.Evaluator.PolyMulFFTGLWE",
		"ManyLUTEvaluator.Evaluator.PolyMulFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.PolyMulGLWE",
		"ManyLUTEvaluator.Evaluator.PolyMulGLWETo",
		"ManyLUTEvaluator.Evaluator.PolyMulSubFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.PolyMulSubGLWETo",
		"ManyLUTEvaluator.Evaluator.ScalarMulAddGLWETo",
		"ManyLUTEvaluator.Evaluator.ScalarMulAddLWETo",
		"ManyLUTEvaluator.Evaluator.ScalarMulGLWE",
		"ManyLUTEvaluator.Evaluator.ScalarMulGLWETo",
		"ManyLUTEvaluator.Evaluator.ScalarMulLWE",
		"ManyLUTEvaluator.Evaluator.ScalarMulLWETo",
		"ManyLUTEvaluator.Evaluator.ScalarMulSubGLWETo",
		"ManyLUTEvaluator.Evaluator.ScalarMulSubLWETo",
		"ManyLUTEvaluator.Evaluator.SubFFTGLWE",
		"ManyLUTEvaluator.Evaluator.SubFFTGLWETo",
		"ManyLUTEvaluator.Evaluator.SubGLWE",
		"ManyLUTEvaluator.Evaluator.SubGLWETo",
		"ManyLUTEvaluator.Evaluator.SubLWE",
		"ManyLUTEvaluator.Evaluator.SubLWETo",
		"ManyLUTEvaluator.Evaluator.SubPlainGLWE",
		"ManyLUTEvaluator.Evaluator.SubPlainGLWETo",
		"ManyLUTEvaluator.Evaluator.SubPlainLWE",
		"ManyLUTEvaluator.Evaluator.SubPlainLWETo",
		"ManyLUTEvaluator.ExternalProdAddFFTGLWETo",
		"ManyLUTEvaluator.ExternalProdAddGLWETo",
		"ManyLUTEvaluator.ExternalProdAddLWETo",
		"ManyLUTEvaluator.ExternalProdFFTGLWETo",
		"ManyLUTEvaluator.ExternalProdGLWE",
		"ManyLUTEvaluator.ExternalProdGLWETo",
		"ManyLUTEvaluator.ExternalProdLWE",
		"ManyLUTEvaluator.ExternalProdLWETo",
		"ManyLUTEvaluator.ExternalProdSubFFTGLWETo",
		"ManyLUTEvaluator.ExternalProdSubGLWETo",
		"ManyLUTEvaluator.ExternalProdSubLWETo",
		"ManyLUTEvaluator.FFTPolyMulAddFFTGLWETo",
		"ManyLUTEvaluator.FFTPolyMulAddGLWETo",
		"ManyLUTEvaluator.FFTPolyMulFFTGLWE",
		"ManyLUTEvaluator.FFTPolyMulFFTGLWETo",
		"ManyLUTEvaluator.FFTPolyMulGLWE",
		"ManyLUTEvaluator.FFTPolyMulGLWETo",
		"ManyLUTEvaluator.FFTPolyMulSubFFTGLWETo",
		"ManyLUTEvaluator.FFTPolyMulSubGLWETo",
		"ManyLUTEvaluator.FloatMulAddFFTGLWETo",
		"ManyLUTEvaluator.FloatMulFFTGLWE",
		"ManyLUTEvaluator.FloatMulFFTGLWETo",
		"ManyLUTEvaluator.FloatMulSubFFTGLWETo",
		"ManyLUTEvaluator.FwdFFTGGSWCiphertext",
		"ManyLUTEvaluator.FwdFFTGGSWCiphertextTo",
		"ManyLUTEvaluator.FwdFFTGLWECiphertext",
		"ManyLUTEvaluator.FwdFFTGLWECiphertextTo",
		"ManyLUTEvaluator.FwdFFTGLWESecretKey",
		"ManyLUTEvaluator.FwdFFTGLWESecretKeyTo",
		"ManyLUTEvaluator.FwdFFTGLevCiphertext",
		"ManyLUTEvaluator.FwdFFTGLevCiphertextTo",
		"ManyLUTEvaluator.GadgetProdAddFFTGLWETo",
		"ManyLUTEvaluator.GadgetProdAddGLWETo",
		"ManyLUTEvaluator.GadgetProdAddLWETo",
		"ManyLUTEvaluator.GadgetProdFFTGLWETo",
		"ManyLUTEvaluator.GadgetProdGLWE",
		"ManyLUTEvaluator.GadgetProdGLWETo",
		"ManyLUTEvaluator.GadgetProdLWE",
		"ManyLUTEvaluator.GadgetProdLWETo",
		"ManyLUTEvaluator.GadgetProdSubFFTGLWETo",
		"ManyLUTEvaluator.GadgetProdSubGLWETo",
		"ManyLUTEvaluator.GadgetProdSubLWETo",
		"ManyLUTEvaluator.GenLUT",
		"ManyLUTEvaluator.GenLUTCustom",
		"ManyLUTEvaluator.GenLUTCustomFull",
		"ManyLUTEvaluator.GenLUTCustomFullTo",
		"ManyLUTEvaluator.GenLUTCustomTo",
		"ManyLUTEvaluator.GenLUTFull",
		"ManyLUTEvaluator.GenLUTFullTo",
		"ManyLUTEvaluator.GenLUTTo",
		"ManyLUTEvaluator.InvFFTGGSWCiphertext",
		"ManyLUTEvaluator.InvFFTGGSWCiphertextTo",
		"ManyLUTEvaluator.InvFFTGLWECiphertext",
		"ManyLUTEvaluator.InvFFTGLWECiphertextTo",
		"ManyLUTEvaluator.InvFFTGLWESecretKey",
		"ManyLUTEvaluator.InvFFTGLWESecretKeyTo",
		"ManyLUTEvaluator.InvFFTGLevCiphertext",
		"ManyLUTEvaluator.InvFFTGLevCiphertextTo",
		"ManyLUTEvaluator.KeySwitchGLWE",
		"ManyLUTEvaluator.KeySwitchGLWETo",
		"ManyLUTEvaluator.KeySwitchLWE",
		"ManyLUTEvaluator.KeySwitchLWETo",
		"ManyLUTEvaluator.ModSwitch",
		"ManyLUTEvaluator.MonomialMulAddGLWETo",
		"ManyLUTEvaluator.MonomialMulGLWE",
		"ManyLUTEvaluator.MonomialMulGLWEInPlace",
		"ManyLUTEvaluator.MonomialMulGLWETo",
		"ManyLUTEvaluator.MonomialMulSubGLWETo",
		"ManyLUTEvaluator.NegFFTGLWE",
		"ManyLUTEvaluator.NegFFTGLWETo",
		"ManyLUTEvaluator.NegGLWE",
		"ManyLUTEvaluator.NegGLWETo",
		"ManyLUTEvaluator.NegLWE",
		"ManyLUTEvaluator.NegLWETo",
		"ManyLUTEvaluator.PermuteAddFFTGLWETo",
		"ManyLUTEvaluator.PermuteAddGLWETo",
		"ManyLUTEvaluator.PermuteFFTGLWE",
		"ManyLUTEvaluator.PermuteFFTGLWEInPlace",
		"ManyLUTEvaluator.PermuteFFTGLWETo",
		"ManyLUTEvaluator.PermuteGLWE",
		"ManyLUTEvaluator.PermuteGLWEInPlace",
		"ManyLUTEvaluator.PermuteGLWETo",
		"ManyLUTEvaluator.PermuteSubFFTGLWETo",
		"ManyLUTEvaluator.PermuteSubGLWETo",
		"ManyLUTEvaluator.PolyMulAddFFTGLWETo",
		"ManyLUTEvaluator.PolyMulAddGLWETo",
		"ManyLUTEvaluator.PolyMulFFTGLWE",
		"ManyLUTEvaluator.PolyMulFFTGLWETo",
		"ManyLUTEvaluator.PolyMulGLWE",
		"ManyLUTEvaluator.PolyMulGLWETo",
		"ManyLUTEvaluator.PolyMulSubFFTGLWETo",
		"ManyLUTEvaluator.PolyMulSubGLWETo",
		"ManyLUTEvaluator.ScalarMulAddGLWETo",
		"ManyLUTEvaluator.ScalarMulAddLWETo",
		"ManyLUTEvaluator.ScalarMulGLWE",
		"ManyLUTEvaluator.ScalarMulGLWETo",
		"ManyLUTEvaluator.ScalarMulLWE",
		"ManyLUTEvaluator.ScalarMulLWETo",
		"ManyLUTEvaluator.ScalarMulSubGLWETo",
		"ManyLUTEvaluator.ScalarMulSubLWETo",
		"ManyLUTEvaluator.SubFFTGLWE",
		"ManyLUTEvaluator.SubFFTGLWETo",
		"ManyLUTEvaluator.SubGLWE",
		"ManyLUTEvaluator.SubGLWETo",
		"ManyLUTEvaluator.SubLWE",
		"ManyLUTEvaluator.SubLWETo",
		"ManyLUTEvaluator.SubPlainGLWE",
		"ManyLUTEvaluator.SubPlainGLWETo",
		"ManyLUTEvaluator.SubPlainLWE",
		"ManyLUTEvaluator.SubPlainLWETo",
		"ModSwitch",
		"MonomialMulAddGLWETo",
		"MonomialMulGLWE",
		"MonomialMulGLWEInPlace",
		"MonomialMulGLWETo",
		"MonomialMulSubGLWETo",
		"NegFFTGLWE",
		"NegFFTGLWETo",
		"NegGLWE",
		"NegGLWETo",
		"NegLWE",
		"NegLWETo",
		"Pack",
		"PackTo",
		"Permute",
		"PermuteAddFFTGLWETo",
		"PermuteAddGLWETo",
		"PermuteFFTGLWE",
		"PermuteFFTGLWEInPlace",
		"PermuteFFTGLWETo",
		"PermuteGLWE",
		"PermuteGLWEInPlace",
		"PermuteGLWETo",
		"PermuteSubFFTGLWETo",
		"PermuteSubGLWETo",
		"PermuteTo",
		"PolyMulAddFFTGLWETo",
		"PolyMulAddGLWETo",
		"PolyMulFFTGLWE",
		"PolyMulFFTGLWETo",
		"PolyMulGLWE",
		"PolyMulGLWETo",
		"PolyMulSubFFTGLWETo",
		"PolyMulSubGLWETo",
		"ScalarMulAddGLWETo",
		"ScalarMulAddLWETo",
		"ScalarMulGLWE",
		"ScalarMulGLWETo",
		"ScalarMulLWE",
		"ScalarMulLWETo",
		"ScalarMulSubGLWETo",
		"ScalarMulSubLWETo",
		"SubFFTGLWE",
		"SubFFTGLWETo",
		"SubGLWE",
		"SubGLWETo",
		"SubLWE",
		"SubLWETo",
		"SubPlainGLWE",
		"SubPlainGLWETo",
		"SubPlainLWE",
		"SubPlainLWETo",
		"Tensor",
		"TensorTo",
	},
	"xtfhe.FHEWEvaluator": {
		"AddFFTGLWE",
		"AddFFTGLWETo",
		"AddGLWE",
		"AddGLWETo",
		"AddLWE",
		"AddLWETo",
		"AddPlainGLWE",
		"AddPlainGLWETo",
		"AddPlainLWE",
		"AddPlainLWETo",
		"BlindRotate",
		"BlindRotateTo",
		"BootstrapFunc",
		"BootstrapFuncTo",
		"BootstrapLUT",
		"BootstrapLUTTo",
		"CMux",
		"CMuxTo",
		"CmplxMulAddFFTGLWETo",
		"CmplxMulFFTGLWE",
		"CmplxMulFFTGLWETo",
		"CmplxMulSubFFTGLWETo",
		"DecodeGLWE",
		"DecodeGLWECustom",
		"DecodeGLWECustomTo",
		"DecodeGLWETo",
		"DecodeLWE",
		"DecodeLWECustom",
		"DefaultKeySwitch",
		"DefaultKeySwitchTo",
		"EncodeGLWE",
		"EncodeGLWECustom",
		"EncodeGLWECustomTo",
		"EncodeGLWETo",
		"EncodeLWE",
		"EncodeLWECustom",
		"Evaluator.AddFFTGLWE",
		"Evaluator.AddFFTGLWETo",
		"Evaluator.AddGLWE",
		"Evaluator.AddGLWETo",
		"Evaluator.AddLWE",
		"Evaluator.AddLWETo",
		"Evaluator.AddPlainGLWE",
		"Evaluator.AddPlainGLWETo",
		"Evaluator.AddPlainLWE",
		"Evaluator.AddPlainLWETo",
		"Evaluator.CMux",
		"Evaluator.CMuxTo",
		"Evaluator.CmplxMulAddFFTGLWETo",
		"Evaluator.CmplxMulFFTGLWE",
		"Evaluator.CmplxMulFFTGLWETo",
		"Evaluator.CmplxMulSubFFTGLWETo",
		"Evaluator.DecodeGLWE",
		"Evaluator.DecodeGLWECustom",
		"Evaluator.DecodeGLWECustomTo",
		"Evaluator.DecodeGLWETo",
		"Evaluator.DecodeLWE",
		"Evaluator.DecodeLWECustom",
		"Evaluator.Decomposer.DecomposePoly",
		"Evaluator.Decomposer.DecomposePolyTo",
		"Evaluator.Decomposer.DecomposeScalar",
		"Evaluator.Decomposer.DecomposeScalarTo",
		"Evaluator.Decomposer.FourierDecomposePoly",
		"Evaluator.Decomposer.FourierDecomposePolyTo",
		"Evaluator.Decomposer.RecomposePoly",
		"Evaluator.Decomposer.RecomposePolyTo",
		"Evaluator.Decomposer.RecomposeScalar",
		"Evaluator.DefaultKeySwitch",
		"Evaluator.DefaultKeySwitchTo",
		"Evaluator.EncodeGLWE",
		"Evaluator.EncodeGLWECustom",
		"Evaluator.EncodeGLWECustomTo",
		"Evaluator.EncodeGLWETo",
		"Evaluator.EncodeLWE",
		"Evaluator.EncodeLWECustom",
		"Evaluator.Encoder.DecodeGLWE",
		"Evaluator.Encoder.DecodeGLWECustom",
		"Evaluator.Encoder.DecodeGLWECustomTo",
		"Evaluator.Encoder.DecodeGLWETo",
		"Evaluator.Encoder.DecodeLWE",
		"Evaluator.Encoder.DecodeLWECustom",
		"Evaluator.Encoder.EncodeGLWE",
		"Evaluator.Encoder.EncodeGLWECustom",
		"Evaluator.Encoder.EncodeGLWECustomTo",
		"Evaluator.Encoder.EncodeGLWETo",
		"Evaluator.Encoder.EncodeLWE",
		"Evaluator.Encoder.EncodeLWECustom",
		"Evaluator.ExternalProdAddFFTGLWETo",
		"Evaluator.ExternalProdAddGLWETo",
		"Evaluator.ExternalProdAddLWETo",
		"Evaluator.ExternalProdFFTGLWETo",
		"Evaluator.ExternalProdGLWE",
		"Evaluator.ExternalProdGLWETo",
		"Evaluator.ExternalProdLWE",
		"Evaluator.ExternalProdLWETo",
		"Evaluator.ExternalProdSubFFTGLWETo",
		"Evaluator.ExternalProdSubGLWETo",
		"Evaluator.ExternalProdSubLWETo",
		"Evaluator.FFTPolyMulAddFFTGLWETo",
		"Evaluator.FFTPolyMulAddGLWETo",
		"Evaluator.FFTPolyMulFFTGLWE",
		"Evaluator.FFTPolyMulFFTGLWETo",
		"Evaluator.FFTPolyMulGLWE",
		"Evaluator.FFTPolyMulGLWETo",
		"Evaluator.FFTPolyMulSubFFTGLWETo",
		"Evaluator.FFTPolyMulSubGLWETo",
		"Evaluator.FloatMulAddFFTGLWETo",
		"Evaluator.FloatMulFFTGLWE",
		"Evaluator.FloatMulFFTGLWETo",
		"Evaluator.FloatMulSubFFTGLWETo",
		"Evaluator.FwdFFTGGSWCiphertext",
		"Evaluator.FwdFFTGGSWCiphertextTo",
		"Evaluator.FwdFFTGLWECiphertext",
		"Evaluator.FwdFFTGLWECiphertextTo",
		"Evaluator.FwdFFTGLWESecretKey",
		"Evaluator.FwdFFTGLWESecretKeyTo",
		"Evaluator.FwdFFTGLevCiphertext",
		"Evaluator.FwdFFTGLevCiphertextTo",
		"Evaluator.GLWETransformer.FwdFFTGGSWCiphertext",
		"Evaluator.GLWETransformer.FwdFFTGGSWCiphertextTo",
		"Evaluator.GLWETransformer.FwdFFTGLWECiphertext",
		"Evaluator.GLWETransformer.FwdFFTGLWECiphertextTo",
		"Evaluator.GLWETransformer.FwdFFTGLWESecretKey",
		"Evaluator.GLWETransformer.FwdFFTGLWESecretKeyTo",
		"Evaluator.GLWETransformer.FwdFFTGLevCiphertext",
		"Evaluator.GLWETransformer.FwdFFTGLevCiphertextTo",
		"Evaluator.GLWETransformer.InvFFTGGSWCiphertext",
		"Evaluator.GLWETransformer.InvFFTGGSWCiphertextTo",
		"Evaluator.GLWETransformer.InvFFTGLWECiphertext",
		"Evaluator.GLWETransformer.InvFFTGLWECiphertextTo",
		"Evaluator.GLWETransformer.InvFFTGLWESecretKey",
		"Evaluator.GLWETransformer.InvFFTGLWESecretKeyTo",
		"Evaluator.GLWETransformer.InvFFTGLevCiphertext",
		"Evaluator.GLWETransformer.InvFFTGLevCiphertextTo",
		"Evaluator.GadgetProdAddFFTGLWETo",
		"Evaluator.GadgetProdAddGLWETo",
		"Evaluator.GadgetProdAddLWETo",
		"Evaluator.GadgetProdFFTGLWETo",
		"Evaluator.GadgetProdGLWE",
		"Evaluator.GadgetProdGLWETo",
		"Evaluator.GadgetProdLWE",
		"Evaluator.GadgetProdLWETo",
		"Evaluator.GadgetProdSubFFTGLWETo",
		"Evaluator.GadgetProdSubGLWETo",
		"Evaluator.GadgetProdSubLWETo",
		"Evaluator.GenLUT",
		"Evaluator.GenLUTCustom",
		"Evaluator.GenLUTCustomFull",
		"Evaluator.GenLUTCustomFullTo",
		"Evaluator.GenLUTCustomTo",
		"Evaluator.GenLUTFull",
		"Evaluator.GenLUTFullTo",
		"Evaluator.GenLUTTo",
		"Evaluator.InvFFTGGSWCiphertext",
		"Evaluator.InvFFTGGSWCiphertextTo",
		"Evaluator.InvFFTGLWECiphertext",
		"Evaluator.InvFFTGLWECiphertextTo",
		"Evaluator.InvFFTGLWESecretKey",
		"Evaluator.InvFFTGLWESecretKeyTo",
		"Evaluator.InvFFTGLevCiphertext",
		"Evaluator.InvFFTGLevCiphertextTo",
		"Evaluator.KeySwitchGLWE",
		"Evaluator.KeySwitchGLWETo",
		"Evaluator.KeySwitchLWE",
		"Evaluator.KeySwitchLWETo",
		"Evaluator.ModSwitch",
		"Evaluator.MonomialMulAddGLWETo",
		"Evaluator.MonomialMulGLWE",
		"Evaluator.MonomialMulGLWEInPlace",
		"Evaluator.MonomialMulGLWETo",
		"Evaluator.MonomialMulSubGLWETo",
		"Evaluator.NegFFTGLWE",
		"Evaluator.NegFFTGLWETo",
		"Evaluator.NegGLWE",
		"Evaluator.NegGLWETo",
		"Evaluator.NegLWE",
		"Evaluator.NegLWETo",
		"Evaluator.PermuteAddFFTGLWETo",
		"Evaluator.PermuteAddGLWETo",
		"Evaluator.PermuteFFTGLWE",
		"Evaluator.PermuteFFTGLWEInPlace",
		"Evaluator.PermuteFFTGLWETo",
		"Evaluator.PermuteGLWE",
		"Evaluator.PermuteGLWEInPlace",
		"Evaluator.PermuteGLWETo",
		"Evaluator.PermuteSubFFTGLWETo",
		"Evaluator.PermuteSubGLWETo",
		"Evaluator.PolyEvaluator.AddFFTPoly",
		"Evaluator.PolyEvaluator.AddFFTPolyTo",
		"Evaluator.PolyEvaluator.AddPoly",
		"Evaluator.PolyEvaluator.AddPolyTo",
		"Evaluator.PolyEvaluator.CmplxMulAddFFTPolyTo",
		"Evaluator.PolyEvaluator.CmplxMulFFTPoly",
		"Evaluator.PolyEvaluator.CmplxMulFFTPolyTo",
		"Evaluator.PolyEvaluator.CmplxMulSubFFTPolyTo",
		"Evaluator.PolyEvaluator.FFTPolyMulAddPolyTo",
		"Evaluator.PolyEvaluator.FFTPolyMulPoly",
		"Evaluator.PolyEvaluator.FFTPolyMulPolyTo",
		"Evaluator.PolyEvaluator.FFTPolyMulSubPolyTo",
		"Evaluator.PolyEvaluator.FloatMulAddFFTPolyTo",
		"Evaluator.PolyEvaluator.FloatMulFFTPoly",
		"Evaluator.PolyEvaluator.FloatMulFFTPolyTo",
		"Evaluator.PolyEvaluator.FloatMulSubFFTPolyTo",
		"Evaluator.PolyEvaluator.FwdFFT",
		"Evaluator.PolyEvaluator.FwdFFTAddTo",
		"Evaluator.PolyEvaluator.FwdFFTSubTo",
		"Evaluator.PolyEvaluator.FwdFFTTo",
		"Evaluator.PolyEvaluator.InvFFT",
		"Evaluator.PolyEvaluator.InvFFTAddTo",
		"Evaluator.PolyEvaluator.InvFFTAddToUnsafe",
		"Evaluator.PolyEvaluator.InvFFTSubTo",
		"Evaluator.PolyEvaluator.InvFFTSubToUnsafe",
		"Evaluator.PolyEvaluator.InvFFTTo",
		"Evaluator.PolyEvaluator.InvFFTToUnsafe",
		"Evaluator.PolyEvaluator.MonomialFwdFFT",
		"Evaluator.PolyEvaluator.MonomialFwdFFTTo",
		"Evaluator.PolyEvaluator.MonomialMulAddPolyTo",
		"Evaluator.PolyEvaluator.MonomialMulPoly",
		"Evaluator.PolyEvaluator.MonomialMulPolyInPlace",
		"Evaluator.PolyEvaluator.MonomialMulPolyTo",
		"Evaluator.PolyEvaluator.MonomialMulSubPolyTo",
		"Evaluator.PolyEvaluator.MonomialSubOneFwdFFT",
		"Evaluator.PolyEvaluator.MonomialSubOneFwdFFTTo",
		"Evaluator.PolyEvaluator.MulAddFFTPolyTo",
		"Evaluator.PolyEvaluator.MulAddPolyTo",
		"Evaluator.PolyEvaluator.MulFFTPoly",
		"Evaluator.PolyEvaluator.MulFFTPolyTo",
		"Evaluator.PolyEvaluator.MulPoly",
		"Evaluator.PolyEvaluator.MulPolyTo",
		"Evaluator.PolyEvaluator.MulSubFFTPolyTo",
		"Evaluator.PolyEvaluator.MulSubPolyTo",
		"Evaluator.PolyEvaluator.NegFFTPoly",
		"Evaluator.PolyEvaluator.NegFFTPolyTo",
		"Evaluator.PolyEvaluator.NegPoly",
		"Evaluator.PolyEvaluator.NegPolyTo",
		"Evaluator.PolyEvaluator.NewFFTPoly",
		"Evaluator.PolyEvaluator.NewPoly",
		"Evaluator.PolyEvaluator.PermuteAddFFTPolyTo",
		"Evaluator.PolyEvaluator.PermuteAddPolyTo",
		"Evaluator.PolyEvaluator.PermuteFFTPoly",
		"Evaluator.PolyEvaluator.PermuteFFTPolyInPlace",
		"Evaluator.PolyEvaluator.PermuteFFTPolyTo",
		"Evaluator.PolyEvaluator.PermutePoly",
		"Evaluator.PolyEvaluator.PermutePolyInPlace",
		"Evaluator.PolyEvaluator.PermutePolyTo",
		"Evaluator.PolyEvaluator.PermuteSubFFTPolyTo",
		"Evaluator.PolyEvaluator.PermuteSubPolyTo",
		"Evaluator.PolyEvaluator.PolyMulAddFFTPolyTo",
		"Evaluator.PolyEvaluator.PolyMulFFTPoly",
		"Evaluator.PolyEvaluator.PolyMulFFTPolyTo",
		"Evaluator.PolyEvaluator.PolyMulSubFFTPolyTo",
		"Evaluator.PolyEvaluator.Rank",
		"Evaluator.PolyEvaluator.ScalarMulAddPolyTo",
		"Evaluator.PolyEvaluator.ScalarMulPoly",
		"Evaluator.PolyEvaluator.ScalarMulPolyTo",
		"Evaluator.PolyEvaluator.ScalarMulSubPolyTo",
		"Evaluator.PolyEvaluator.ShortFFTPolyMulAddPolyTo",
		"Evaluator.PolyEvaluator.ShortFFTPolyMulPoly",
		"Evaluator.PolyEvaluator.ShortFFTPolyMulPolyTo",
		"Evaluator.PolyEvaluator.ShortFFTPolyMulSubPolyTo",
		"Evaluator.PolyEvaluator.SubFFTPoly",
		"Evaluator.PolyEvaluator.SubFFTPolyTo",
		"Evaluator.PolyEvaluator.SubPoly",
		"Evaluator.PolyEvaluator.SubPolyTo",
		"Evaluator.PolyMulAddFFTGLWETo",
		"Evaluator.PolyMulAddGLWETo",
		"Evaluator.PolyMulFFTGLWE",
		"Evaluator.PolyMulFFTGLWETo",
		"Evaluator.PolyMulGLWE",
		"Evaluator.PolyMulGLWETo",
		"Evaluator.PolyMulSubFFTGLWETo",
		"Evaluator.PolyMulSubGLWETo",
		"Evaluator.ScalarMulAddGLWETo",
		"Evaluator.ScalarMulAddLWETo",
		"Evaluator.ScalarMulGLWE",
		"Evaluator.ScalarMulGLWETo",
		"Evaluator.ScalarMulLWE",
		"Evaluator.ScalarMulLWETo",
		"Evaluator.ScalarMulSubGLWETo",
		"Evaluator.ScalarMulSubLWETo",
		"Evaluator.SubFFTGLWE",
		"Evaluator.SubFFTGLWETo",
		"Evaluator.SubGLWE",
		"Evaluator.SubGLWETo",
		"Evaluator.SubLWE",
		"Evaluator.SubLWETo",
		"Evaluator.SubPlainGLWE",
		"Evaluator.SubPlainGLWETo",
		"Evaluator.SubPlainLWE",
		"Evaluator.SubPlainLWETo",
		"ExternalProdAddFFTGLWETo",
		"ExternalProdAddGLWETo",
		"ExternalProdAddLWETo",
		"ExternalProdFFTGLWETo",
		"ExternalProdGLWE",
		"ExternalProdGLWETo",
		"ExternalProdLWE",
		"ExternalProdLWETo",
		"ExternalProdSubFFTGLWETo",
		"ExternalProdSubGLWETo",
		"ExternalProdSubLWETo",
		"FFTPolyMulAddFFTGLWETo",
		"FFTPolyMulAddGLWETo",
		"FFTPolyMulFFTGLWE",
		"FFTPolyMulFFTGLWETo",
		"FFTPolyMulGLWE",
		"FFTPolyMulGLWETo",
		"FFTPolyMulSubFFTGLWETo",
		"FFTPolyMulSubGLWETo",
		"FloatMulAddFFTGLWETo",
		"FloatMulFFTGLWE",
		"FloatMulFFTGLWETo",
		"FloatMulSubFFTGLWETo",
		"FwdFFTGGSWCiphertext",
		"FwdFFTGGSWCiphertextTo",
		"FwdFFTGLWECiphertext",
		"FwdFFTGLWECiphertextTo",
		"FwdFFTGLWESecretKey",
		"FwdFFTGLWESecretKeyTo",
		"FwdFFTGLevCiphertext",
		"FwdFFTGLevCiphertextTo",
		"GadgetProdAddFFTGLWETo",
		"GadgetProdAddGLWETo",
		"GadgetProdAddLWETo",
		"GadgetProdFFTGLWETo",
		"GadgetProdGLWE",
		"GadgetProdGLWETo",
		"GadgetProdLWE",
		"GadgetProdLWETo",
		"GadgetProdSubFFTGLWETo",
		"GadgetProdSubGLWETo",
		"GadgetProdSubLWETo",
		"GenLUT",
		"GenLUTCustom",
		"GenLUTCustomFull",
		"GenLUTCustomFullTo",
		"GenLUTCustomTo",
		"GenLUTFull",
		"GenLUTFullTo",
		"GenLUTTo",
		"InvFFTGGSWCiphertext",
		"InvFFTGGSWCiphertextTo",
		"InvFFTGLWECiphertext",
		"InvFFTGLWECiphertextTo",
		"InvFFTGLWESecretKey",
		"InvFFTGLWESecretKeyTo",
		"InvFFTGLevCiphertext",
		"InvFFTGLevCiphertextTo",
		"KeySwitchGLWE",
		"KeySwitchGLWETo",
		"KeySwitchLWE",
		"KeySwitchLWETo",
		"ModSwitch",
		"MonomialMulAddGLWETo",
		"MonomialMulGLWE",
		"MonomialMulGLWEInPlace",
		"MonomialMulGLWETo",
		"MonomialMulSubGLWETo",
		"NegFFTGLWE",
		"NegFFTGLWETo",
		"NegGLWE",
		"NegGLWETo",
		"NegLWE",
		"NegLWETo",
		"PermuteAddFFTGLWETo",
		"PermuteAddGLWETo",
		"PermuteFFTGLWE",
		"PermuteFFTGLWEInPlace",
		"PermuteFFTGLWETo",
		"PermuteGLWE",
		"PermuteGLWEInPlace",
		"PermuteGLWETo",
		"PermuteSubFFTGLWETo",
		"PermuteSubGLWETo",
		"PolyMulAddFFTGLWETo",
		"PolyMulAddGLWETo",
		"PolyMulFFTGLWE",
		"PolyMulFFTGLWETo",
		"PolyMulGLWE",
		"PolyMulGLWETo",
		"PolyMulSubFFTGLWETo",
		"PolyMulSubGLWETo",
		"ScalarMulAddGLWETo",
		"ScalarMulAddLWETo",
		"ScalarMulGLWE",
		"ScalarMulGLWETo",
		"ScalarMulLWE",
		"ScalarMulLWETo",
		"ScalarMulSubGLWETo",
		"ScalarMulSubLWETo",
		"SubFFTGLWE",
		"SubFFTGLWETo",
		"SubGLWE",
		"SubGLWETo",
		"SubLWE",
		"SubLWETo",
		"SubPlainGLWE",
		"SubPlainGLWETo",
		"SubPlainLWE",
		"SubPlainLWETo",
	},
	"xtfhe.ManyLUTEvaluator": {
		"AddFFTGLWE",
		"AddFFTGLWETo",
		"AddGLWE",
		"AddGLWETo",
		"AddLWE",
		"AddLWETo",
		"AddPlainGLWE",
		"AddPlainGLWETo",
		"AddPlainLWE",
		"AddPlainLWETo",
		"BlindRotate",
		"BlindRotateTo",
		"BootstrapFunc",
		"BootstrapFuncTo",
		"BootstrapLUT",
		"BootstrapLUTTo",
		"CMux",
		"CMuxTo",
		"CmplxMulAddFFTGLWETo",
		"CmplxMulFFTGLWE",
		"CmplxMulFFTGLWETo",
		"CmplxMulSubFFTGLWETo",
		"DecodeGLWE",
		"DecodeGLWECustom",
		"DecodeGLWECustomTo",
		"DecodeGLWETo",
		"DecodeLWE",
		"DecodeLWECustom",
		"DefaultKeySwitch",
		"DefaultKeySwitchTo",
		"EncodeGLWE",
		"EncodeGLWECustom",
		"EncodeGLWECustomTo",
		"EncodeGLWETo",
		"EncodeLWE",
		"EncodeLWECustom",
		"Evaluator.AddFFTGLWE",
		"Evaluator.AddFFTGLWETo",
		"Evaluator.AddGLWE",
		"Evaluator.AddGLWETo",
		"Evaluator.AddLWE",
		"Evaluator.AddLWETo",
		"Evaluator.AddPlainGLWE",
		"Evaluator.AddPlainGLWETo",
		"Evaluator.AddPlainLWE",
		"Evaluator.AddPlainLWETo",
		"Evaluator.BlindRotate",
		"Evaluator.BlindRotateTo",
		"Evaluator.BootstrapFunc",
		"Evaluator.BootstrapFuncTo",
		"Evaluator.BootstrapLUT",
		"Evaluator.BootstrapLUTTo",
		"Evaluator.CMux",
		"Evaluator.CMuxTo",
		"Evaluator.CmplxMulAddFFTGLWETo",
		"Evaluator.CmplxMulFFTGLWE",
		"Evaluator.CmplxMulFFTGLWETo",
		"Evaluator.CmplxMulSubFFTGLWETo",
		"Evaluator.DecodeGLWE",
		"Evaluator.DecodeGLWECustom",
		"Evaluator.DecodeGLWECustomTo",
		"Evaluator.DecodeGLWETo",
		"Evaluator.DecodeLWE",
		"Evaluator.DecodeLWECustom",
		"Evaluator.Decomposer.DecomposePoly",
		"Evaluator.Decomposer.DecomposePolyTo",
		"Evaluator.Decomposer.DecomposeScalar",
		"Evaluator.Decomposer.DecomposeScalarTo",
		"Evaluator.Decomposer.FourierDecomposePoly",
		"Evaluator.Decomposer.FourierDecomposePolyTo",
		"Evaluator.Decomposer.RecomposePoly",
		"Evaluator.Decomposer.RecomposePolyTo",
		"Evaluator.Decomposer.RecomposeScalar",
		"Evaluator.DefaultKeySwitch",
		"Evaluator.DefaultKeySwitchTo",
		"Evaluator.EncodeGLWE",
		"Evaluator.EncodeGLWECustom",
		"Evaluator.EncodeGLWECustomTo",
		"Evaluator.EncodeGLWETo",
		"Evaluator.EncodeLWE",
		"Evaluator.EncodeLWECustom",
		"Evaluator.Encoder.DecodeGLWE",
		"Evaluator.Encoder.DecodeGLWECustom",
		"Evaluator.Encoder.DecodeGLWECustomTo",
		"Evaluator.Encoder.DecodeGLWETo",
		"Evaluator.Encoder.DecodeLWE",
		"Evaluator.Encoder.DecodeLWECustom",
		"Evaluator.Encoder.EncodeGLWE",
		"Evaluator.Encoder.EncodeGLWECustom",
		"Evaluator.Encoder.EncodeGLWECustomTo",
		"Evaluator.Encoder.EncodeGLWETo",
		"Evaluator.Encoder.EncodeLWE",
		"Evaluator.Encoder.EncodeLWECustom",
		"Evaluator.ExternalProdAddFFTGLWETo",
		"Evaluator.ExternalProdAddGLWETo",
		"Evaluator.ExternalProdAddLWETo",
		"Evaluator.ExternalProdFFTGLWETo",
		"Evaluator.ExternalProdGLWE",
		"Evaluator.ExternalProdGLWETo",
		"Evaluator.ExternalProdLWE",
		"Evaluator.ExternalProdLWETo",
		"Evaluator.ExternalProdSubFFTGLWETo",
		"Evaluator.ExternalProdSubGLWETo",
		"Evaluator.ExternalProdSubLWETo",
		"Evaluator.FFTPolyMulAddFFTGLWETo",
		"Evaluator.FFTPolyMulAddGLWETo",
		"Evaluator.FFTPolyMulFFTGLWE",
		"Evaluator.FFTPolyMulFFTGLWETo",
		"Evaluator.FFTPolyMulGLWE",
		"Evaluator.FFTPolyMulGLWETo",
		"Evaluator.FFTPolyMulSubFFTGLWETo",
		"Evaluator.FFTPolyMulSubGLWETo",
		"Evaluator.FloatMulAddFFTGLWETo",
		"Evaluator.FloatMulFFTGLWE",
		"Evaluator.FloatMulFFTGLWETo",
		"Evaluator.FloatMulSubFFTGLWETo",
		"Evaluator.FwdFFTGGSWCiphertext",
		"Evaluator.FwdFFTGGSWCiphertextTo",
		"Evaluator.FwdFFTGLWECiphertext",
		"Evaluator.FwdFFTGLWECiphertextTo",
		"Evaluator.FwdFFTGLWESecretKey",
		"Evaluator.FwdFFTGLWESecretKeyTo",
		"Evaluator.FwdFFTGLevCiphertext",
		"Evaluator.FwdFFTGLevCiphertextTo",
		"Evaluator.GLWETransformer.FwdFFTGGSWCiphertext",
		"Evaluator.GLWETransformer.FwdFFTGGSWCiphertextTo",
		"Evaluator.GLWETransformer.FwdFFTGLWECiphertext",
		"Evaluator.GLWETransformer.FwdFFTGLWECiphertextTo",
		"Evaluator.GLWETransformer.FwdFFTGLWESecretKey",
		"Evaluator.GLWETransformer.FwdFFTGLWESecretKeyTo",
		"Evaluator.GLWETransformer.FwdFFTGLevCiphertext",
		"Evaluator.GLWETransformer.FwdFFTGLevCiphertextTo",
		"Evaluator.GLWETransformer.InvFFTGGSWCiphertext",
		"Evaluator.GLWETransformer.InvFFTGGSWCiphertextTo",
		"Evaluator.GLWETransformer.InvFFTGLWECiphertext",
		"Evaluator.GLWETransformer.InvFFTGLWECiphertextTo",
		"Evaluator.GLWETransformer.InvFFTGLWESecretKey",
		"Evaluator.GLWETransformer.InvFFTGLWESecretKeyTo",
		"Evaluator.GLWETransformer.InvFFTGLevCiphertext",
		"Evaluator.GLWETransformer.InvFFTGLevCiphertextTo",
		"Evaluator.GadgetProdAddFFTGLWETo",
		"Evaluator.GadgetProdAddGLWETo",
		"Evaluator.GadgetProdAddLWETo",
		"Evaluator.GadgetProdFFTGLWETo",
		"Evaluator.GadgetProdGLWE",
		"Evaluator.GadgetProdGLWETo",
		"Evaluator.GadgetProdLWE",
		"Evaluator.GadgetProdLWETo",
		"Evaluator.GadgetProdSubFFTGLWETo",
		"Evaluator.GadgetProdSubGLWETo",
		"Evaluator.GadgetProdSubLWETo",
		"Evaluator.GenLUT",
		"Evaluator.GenLUTCustom",
		"Evaluator.GenLUTCustomFull",
		"Evaluator.GenLUTCustomFullTo",
		"Evaluator.GenLUTCustomTo",
		"Evaluator.GenLUTFull",
		"Evaluator.GenLUTFullTo",
		"Evaluator.GenLUTTo",
		"Evaluator.InvFFTGGSWCiphertext",
		"Evaluator.InvFFTGGSWCiphertextTo",
		"Evaluator.InvFFTGLWECiphertext",
		"Evaluator.InvFFTGLWECiphertextTo",
		"Evaluator.InvFFTGLWESecretKey",
		"Evaluator.InvFFTGLWESecretKeyTo",
		"Evaluator.InvFFTGLevCiphertext",
		"Evaluator.InvFFTGLevCiphertextTo",
		"Evaluator.KeySwitchGLWE",
		"Evaluator.KeySwitchGLWETo",
		"Evaluator.KeySwitchLWE",
		"Evaluator.KeySwitchLWETo",
		"Evaluator.ModSwitch",
		"Evaluator.MonomialMulAddGLWETo",
		"Evaluator.MonomialMulGLWE",
		"Evaluator.MonomialMulGLWEInPlace",
		"Evaluator.MonomialMulGLWETo",
		"Evaluator.MonomialMulSubGLWETo",
		"Evaluator.NegFFTGLWE",
		"Evaluator.NegFFTGLWETo",
		"Evaluator.NegGLWE",
		"Evaluator.NegGLWETo",
		"Evaluator.NegLWE",
		"Evaluator.NegLWETo",
		"Evaluator.PermuteAddFFTGLWETo",
		"Evaluator.PermuteAddGLWETo",
		"Evaluator.PermuteFFTGLWE",
		"Evaluator.PermuteFFTGLWEInPlace",
		"Evaluator.PermuteFFTGLWETo",
		"Evaluator.PermuteGLWE",
		"Evaluator.PermuteGLWEInPlace",
		"Evaluator.PermuteGLWETo",
		"Evaluator.PermuteSubFFTGLWETo",
		"Evaluator.PermuteSubGLWETo",
		"Evaluator.PolyEvaluator.AddFFTPoly",
		"Evaluator.PolyEvaluator.AddFFTPolyTo",
		"Evaluator.PolyEvaluator.AddPoly",
		"Evaluator.PolyEvaluator.AddPolyTo",
		"Evaluator.PolyEvaluator.CmplxMulAddFFTPolyTo",
		"Evaluator.PolyEvaluator.CmplxMulFFTPoly",
		"Evaluator.PolyEvaluator.CmplxMulFFTPolyTo",
		"Evaluator.PolyEvaluator.CmplxMulSubFFTPolyTo",
		"Evaluator.PolyEvaluator.FFTPolyMulAddPolyTo",
		"Evaluator.PolyEvaluator.FFTPolyMulPoly",
		"Evaluator.PolyEvaluator.FFTPolyMulPolyTo",
		"Evaluator.PolyEvaluator.FFTPolyMulSubPolyTo",
		"Evaluator.PolyEvaluator.FloatMulAddFFTPolyTo",
		"Evaluator.PolyEvaluator.FloatMulFFTPoly",
		"Evaluator.PolyEvaluator.FloatMulFFTPolyTo",
		"Evaluator.PolyEvaluator.FloatMulSubFFTPolyTo",
		"Evaluator.PolyEvaluator.FwdFFT",
		"Evaluator.PolyEvaluator.FwdFFTAddTo",
		"Evaluator.PolyEvaluator.FwdFFTSubTo",
		"Evaluator.PolyEvaluator.FwdFFTTo",
		"Evaluator.PolyEvaluator.InvFFT",
		"Evaluator.PolyEvaluator.InvFFTAddTo",
		"Evaluator.PolyEvaluator.InvFFTAddToUnsafe",
		"Evaluator.PolyEvaluator.InvFFTSubTo",
		"Evaluator.PolyEvaluator.InvFFTSubToUnsafe",
		"Evaluator.PolyEvaluator.InvFFTTo",
		"Evaluator.PolyEvaluator.InvFFTToUnsafe",
		"Evaluator.PolyEvaluator.MonomialFwdFFT",
		"Evaluator.PolyEvaluator.MonomialFwdFFTTo",
		"Evaluator.PolyEvaluator.MonomialMulAddPolyTo",
		"Evaluator.PolyEvaluator.MonomialMulPoly",
		"Evaluator.PolyEvaluator.MonomialMulPolyInPlace",
		"Evaluator.PolyEvaluator.MonomialMulPolyTo",
		"Evaluator.PolyEvaluator.MonomialMulSubPolyTo",
		"Evaluator.PolyEvaluator.MonomialSubOneFwdFFT",
		"Evaluator.PolyEvaluator.MonomialSubOneFwdFFTTo",
		"Evaluator.PolyEvaluator.MulAddFFTPolyTo",
		"Evaluator.PolyEvaluator.MulAddPolyTo",
		"Evaluator.PolyEvaluator.MulFFTPoly",
		"Evaluator.PolyEvaluator.MulFFTPolyTo",
		"Evaluator.PolyEvaluator.MulPoly",
		"Evaluator.PolyEvaluator.MulPolyTo",
		"Evaluator.PolyEvaluator.MulSubFFTPolyTo",
		"Evaluator.PolyEvaluator.MulSubPolyTo",
		"Evaluator.PolyEvaluator.NegFFTPoly",
		"Evaluator.PolyEvaluator.NegFFTPolyTo",
		"Evaluator.PolyEvaluator.NegPoly",
		"Evaluator.PolyEvaluator.NegPolyTo",
		"Evaluator.PolyEvaluator.NewFFTPoly",
		"Evaluator.PolyEvaluator.NewPoly",
		"Evaluator.PolyEvaluator.PermuteAddFFTPolyTo",
		"Evaluator.PolyEvaluator.PermuteAddPolyTo",
		"Evaluator.PolyEvaluator.PermuteFFTPoly",
		"Evaluator.PolyEvaluator.PermuteFFTPolyInPlace",
		"Evaluator.PolyEvaluator.PermuteFFTPolyTo",
		"Evaluator.PolyEvaluator.PermutePoly",
		"Evaluator.PolyEvaluator.PermutePolyInPlace",
		"Evaluator.PolyEvaluator.PermutePolyTo",
		"Evaluator.PolyEvaluator.PermuteSubFFTPolyTo",
		"Evaluator.PolyEvaluator.PermuteSubPolyTo",
		"Evaluator.PolyEvaluator.PolyMulAddFFTPolyTo",
		"Evaluator.PolyEvaluator.PolyMulFFTPoly",
		"Evaluator.PolyEvaluator.PolyMulFFTPolyTo",
		"Evaluator.PolyEvaluator.PolyMulSubFFTPolyTo",
		"Evaluator.PolyEvaluator.Rank",
		"Evaluator.PolyEvaluator.ScalarMulAddPolyTo",
		"Evaluator.PolyEvaluator.ScalarMulPoly",
		"Evaluator.PolyEvaluator.ScalarMulPolyTo",
		"Evaluator.PolyEvaluator.ScalarMulSubPolyTo",
		"Evaluator.PolyEvaluator.ShortFFTPolyMulAddPolyTo",
		"Evaluator.PolyEvaluator.ShortFFTPolyMulPoly",
		"Evaluator.PolyEvaluator.ShortFFTPolyMulPolyTo",
		"Evaluator.PolyEvaluator.ShortFFTPolyMulSubPolyTo",
		"Evaluator.PolyEvaluator.SubFFTPoly",
		"Evaluator.PolyEvaluator.SubFFTPolyTo",
		"Evaluator.PolyEvaluator.SubPoly",
		"Evaluator.PolyEvaluator.SubPolyTo",
		"Evaluator.PolyMulAddFFTGLWETo",
		"Evaluator.PolyMulAddGLWETo",
		"Evaluator.PolyMulFFTGLWE",
		"Evaluator.PolyMulFFTGLWETo",
		"Evaluator.PolyMulGLWE",
		"Evaluator.PolyMulGLWETo",
		"Evaluator.PolyMulSubFFTGLWETo",
		"Evaluator.PolyMulSubGLWETo",
		"Evaluator.ScalarMulAddGLWETo",
		"Evaluator.ScalarMulAddLWETo",
		"Evaluator.ScalarMulGLWE",
		"Evaluator.ScalarMulGLWETo",
		"Evaluator.ScalarMulLWE",
		"Evaluator.ScalarMulLWETo",
		"Evaluator.ScalarMulSubGLWETo",
		"Evaluator.ScalarMulSubLWETo",
		"Evaluator.SubFFTGLWE",
		"Evaluator.SubFFTGLWETo",
		"Evaluator.SubGLWE",
		"Evaluator.SubGLWETo",
		"Evaluator.SubLWE",
		"Evaluator.SubLWETo",
		"Evaluator.SubPlainGLWE",
		"Evaluator.SubPlainGLWETo",
		"Evaluator.SubPlainLWE",
		"Evaluator.SubPlainLWETo",
		"ExternalProdAddFFTGLWETo",
		"ExternalProdAddGLWETo",
		"ExternalProdAddLWETo",
		"ExternalProdFFTGLWETo",
		"ExternalProdGLWE",
		"ExternalProdGLWETo",
		"ExternalProdLWE",
		"ExternalProdLWETo",
		"ExternalProdSubFFTGLWETo",
		"ExternalProdSubGLWETo",
		"ExternalProdSubLWETo",
		"FFTPolyMulAddFFTGLWETo",
		"FFTPolyMulAddGLWETo",
		"FFTPolyMulFFTGLWE",
		"FFTPolyMulFFTGLWETo",
		"FFTPolyMulGLWE",
		"FFTPolyMulGLWETo",
		"FFTPolyMulSubFFTGLWETo",
		"FFTPolyMulSubGLWETo",
		"FloatMulAddFFTGLWETo",
		"FloatMulFFTGLWE",
		"FloatMulFFTGLWETo",
		"FloatMulSubFFTGLWETo",
		"FwdFFTGGSWCiphertext",
		"FwdFFTGGSWCiphertextTo",
		"FwdFFTGLWECiphertext",
		"FwdFFTGLWECiphertextTo",
		"FwdFFTGLWESecretKey",
		"FwdFFTGLWESecretKeyTo",
		"FwdFFTGLevCiphertext",
		"FwdFFTGLevCiphertextTo",
		"GadgetProdAddFFTGLWETo",
		"GadgetProdAddGLWETo",
		"GadgetProdAddLWETo",
		"GadgetProdFFTGLWETo",
		"GadgetProdGLWE",
		"GadgetProdGLWETo",
		"GadgetProdLWE",
		"GadgetProdLWETo",
		"GadgetProdSubFFTGLWETo",
		"GadgetProdSubGLWETo",
		"GadgetProdSubLWETo",
		"GenLUT",
		"GenLUTCustom",
		"GenLUTCustomFull",
		"GenLUTCustomFullTo",
		"GenLUTCustomTo",
		"GenLUTFull",
		"GenLUTFullTo",
		"GenLUTTo",
		"InvFFTGGSWCiphertext",
		"InvFFTGGSWCiphertextTo",
		"InvFFTGLWECiphertext",
		"InvFFTGLWECiphertextTo",
		"InvFFTGLWESecretKey",
		"InvFFTGLWESecretKeyTo",
		"InvFFTGLevCiphertext",
		"InvFFTGLevCiphertextTo",
		"KeySwitchGLWE",
		"KeySwitchGLWETo",
		"KeySwitchLWE",
		"KeySwitchLWETo",
		"ModSwitch",
		"MonomialMulAddGLWETo",
		"MonomialMulGLWE",
		"MonomialMulGLWEInPlace",
		"MonomialMulGLWETo",
		"MonomialMulSubGLWETo",
		"NegFFTGLWE",
		"NegFFTGLWETo",
		"NegGLWE",
		"NegGLWETo",
		"NegLWE",
		"NegLWETo",
		"PermuteAddFFTGLWETo",
		"PermuteAddGLWETo",
		"PermuteFFTGLWE",
		"PermuteFFTGLWEInPlace",
		"PermuteFFTGLWETo",
		"PermuteGLWE",
		"PermuteGLWEInPlace",
		"PermuteGLWETo",
		"PermuteSubFFTGLWETo",
		"PermuteSubGLWETo",
		"PolyMulAddFFTGLWETo",
		"PolyMulAddGLWETo",
		"PolyMulFFTGLWE",
		"PolyMulFFTGLWETo",
		"PolyMulGLWE",
		"PolyMulGLWETo",
		"PolyMulSubFFTGLWETo",
		"PolyMulSubGLWETo",
		"ScalarMulAddGLWETo",
		"ScalarMulAddLWETo",
		"ScalarMulGLWE",
		"ScalarMulGLWETo",
		"ScalarMulLWE",
		"ScalarMulLWETo",
		"ScalarMulSubGLWETo",
		"ScalarMulSubLWETo",
		"SubFFTGLWE",
		"SubFFTGLWETo",
		"SubGLWE",
		"SubGLWETo",
		"SubLWE",
		"SubLWETo",
		"SubPlainGLWE",
		"SubPlainGLWETo",
		"SubPlainLWE",
		"SubPlainLWETo",
	},
}

var aliasTable = map[string]bool{
	"mktfhe.BinaryEvaluator/ANDParallelTo/1":                                          true,
	"mktfhe.BinaryEvaluator/ANDParallelTo/2":                                          true,
	"mktfhe.BinaryEvaluator/ANDTo/1":                                                  true,
	"mktfhe.BinaryEvaluator/ANDTo/2":                                                  true,
	"mktfhe.BinaryEvaluator/Evaluator.AddFFTGLWETo/1":                                 true,
	"mktfhe.BinaryEvaluator/Evaluator.AddFFTGLWETo/2":                                 true,
	"mktfhe.BinaryEvaluator/Evaluator.AddGLWETo/1":                                    true,
	"mktfhe.BinaryEvaluator/Evaluator.AddGLWETo/2":                                    true,
	"mktfhe.BinaryEvaluator/Evaluator.AddLWETo/1":                                     true,
	"mktfhe.BinaryEvaluator/Evaluator.AddLWETo/2":                                     true,
	"mktfhe.BinaryEvaluator/Evaluator.AddPlainGLWETo/1":                               true,
	"mktfhe.BinaryEvaluator/Evaluator.AddPlainLWETo/1":                                true,
	"mktfhe.BinaryEvaluator/Evaluator.BootstrapFuncParallelTo/1":                      true,
	"mktfhe.BinaryEvaluator/Evaluator.BootstrapFuncTo/1":                              true,
	"mktfhe.BinaryEvaluator/Evaluator.BootstrapLUTParallelTo/1":                       true,
	"mktfhe.BinaryEvaluator/Evaluator.BootstrapLUTTo/1":                               true,
	"mktfhe.BinaryEvaluator/Evaluator.CmplxMulAddFFTGLWETo/1":                         true,
	"mktfhe.BinaryEvaluator/Evaluator.CmplxMulFFTGLWETo/1":                            true,
	"mktfhe.BinaryEvaluator/Evaluator.CmplxMulSubFFTGLWETo/1":                         true,
	"mktfhe.BinaryEvaluator/Evaluator.ExternalProdAddGLWETo/2":                        true,
	"mktfhe.BinaryEvaluator/Evaluator.ExternalProdGLWETo/2":                           true,
	"mktfhe.BinaryEvaluator/Evaluator.ExternalProdSubGLWETo/2":                        true,
	"mktfhe.BinaryEvaluator/Evaluator.FFTPolyMulAddFFTGLWETo/1":                       true,
	"mktfhe.BinaryEvaluator/Evaluator.FFTPolyMulAddGLWETo/1":                          true,
	"mktfhe.BinaryEvaluator/Evaluator.FFTPolyMulFFTGLWETo/1":                          true,
	"mktfhe.BinaryEvaluator/Evaluator.FFTPolyMulGLWETo/1":                             true,
	"mktfhe.BinaryEvaluator/Evaluator.FFTPolyMulSubFFTGLWETo/1":                       true,
	"mktfhe.BinaryEvaluator/Evaluator.FFTPolyMulSubGLWETo/1":                          true,
	"mktfhe.BinaryEvaluator/Evaluator.FloatMulAddFFTGLWETo/1":                         true,
	"mktfhe.BinaryEvaluator/Evaluator.FloatMulFFTGLWETo/1":                            true,
	"mktfhe.BinaryEvaluator/Evaluator.FloatMulSubFFTGLWETo/1":                         true,
	"mktfhe.BinaryEvaluator/Evaluator.HybridProdAddGLWETo/2":                          true,
	"mktfhe.BinaryEvaluator/Evaluator.HybridProdGLWETo/2":                             true,
	"mktfhe.BinaryEvaluator/Evaluator.HybridProdSubGLWETo/2":                          true,
	"mktfhe.BinaryEvaluator/Evaluator.NegFFTGLWETo/1":                                 true,
	"mktfhe.BinaryEvaluator/Evaluator.NegGLWETo/1":                                    true,
	"mktfhe.BinaryEvaluator/Evaluator.NegLWETo/1":                                     true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.AddFFTPolyTo/1":                   true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.AddFFTPolyTo/2":                   true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.AddPolyTo/1":                      true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.AddPolyTo/2":                      true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.CmplxMulAddFFTPolyTo/1":           true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.CmplxMulFFTPolyTo/1":              true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.CmplxMulSubFFTPolyTo/1":           true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.FFTPolyMulAddPolyTo/1":            true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.FFTPolyMulPolyTo/1":               true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.FFTPolyMulSubPolyTo/1":            true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.FloatMulAddFFTPolyTo/1":           true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.FloatMulFFTPolyTo/1":              true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.FloatMulSubFFTPolyTo/1":           true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulAddFFTPolyTo/1":                true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulAddFFTPolyTo/2":                true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulAddPolyTo/1":                   true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulAddPolyTo/2":                   true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulFFTPolyTo/1":                   true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulFFTPolyTo/2":                   true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulPolyTo/1":                      true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulPolyTo/2":                      true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulSubFFTPolyTo/1":                true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulSubFFTPolyTo/2":                true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulSubPolyTo/1":                   true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulSubPolyTo/2":                   true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.NegFFTPolyTo/1":                   true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.NegPolyTo/1":                      true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.PolyMulAddFFTPolyTo/1":            true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.PolyMulFFTPolyTo/1":               true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.PolyMulSubFFTPolyTo/1":            true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.ScalarMulAddPolyTo/1":             true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.ScalarMulPolyTo/1":                true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.ScalarMulSubPolyTo/1":             true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.ShortFFTPolyMulAddPolyTo/1":       true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.ShortFFTPolyMulPolyTo/1":          true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.ShortFFTPolyMulSubPolyTo/1":       true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.SubFFTPolyTo/1":                   true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.SubFFTPolyTo/2":                   true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.SubPolyTo/1":                      true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyEvaluator.SubPolyTo/2":                      true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyMulAddFFTGLWETo/1":                          true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyMulAddGLWETo/1":                             true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyMulFFTGLWETo/1":                             true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyMulGLWETo/1":                                true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyMulSubFFTGLWETo/1":                          true,
	"mktfhe.BinaryEvaluator/Evaluator.PolyMulSubGLWETo/1":                             true,
	"mktfhe.BinaryEvaluator/Evaluator.ScalarMulAddGLWETo/1":                           true,
	"mktfhe.BinaryEvaluator/Evaluator.ScalarMulAddLWETo/1":                            true,
	"mktfhe.BinaryEvaluator/Evaluator.ScalarMulGLWETo/1":                              true,
	"mktfhe.BinaryEvaluator/Evaluator.ScalarMulLWETo/1":                               true,
	"mktfhe.BinaryEvaluator/Evaluator.ScalarMulSubGLWETo/1":                           true,
	"mktfhe.BinaryEvaluator/Evaluator.ScalarMulSubLWETo/1":                            true,
	"mktfhe.BinaryEvaluator/Evaluator.SubFFTGLWETo/1":                                 true,
	"mktfhe.BinaryEvaluator/Evaluator.SubFFTGLWETo/2":                                 true,
	"mktfhe.BinaryEvaluator/Evaluator.SubGLWETo/1":                                    true,
	"mktfhe.BinaryEvaluator/Evaluator.SubGLWETo/2":                                    true,
	"mktfhe.BinaryEvaluator/Evaluator.SubLWETo/1":                                     true,
	"mktfhe.BinaryEvaluator/Evaluator.SubLWETo/2":                                     true,
	"mktfhe.BinaryEvaluator/Evaluator.SubPlainGLWETo/1":                               true,
	"mktfhe.BinaryEvaluator/Evaluator.SubPlainLWETo/1":                                true,
	"mktfhe.BinaryEvaluator/NANDParallelTo/1":                                         true,
	"mktfhe.BinaryEvaluator/NANDParallelTo/2":                                         true,
	"mktfhe.BinaryEvaluator/NANDTo/1":                                                 true,
	"mktfhe.BinaryEvaluator/NANDTo/2":                                                 true,
	"mktfhe.BinaryEvaluator/NORParallelTo/1":                                          true,
	"mktfhe.BinaryEvaluator/NORParallelTo/2":                                          true,
	"mktfhe.BinaryEvaluator/NORTo/1":                                                  true,
	"mktfhe.BinaryEvaluator/NORTo/2":                                                  true,
	"mktfhe.BinaryEvaluator/NOTTo/1":                                                  true,
	"mktfhe.BinaryEvaluator/ORParallelTo/1":                                           true,
	"mktfhe.BinaryEvaluator/ORParallelTo/2":                                           true,
	"mktfhe.BinaryEvaluator/ORTo/1":                                                   true,
	"mktfhe.BinaryEvaluator/ORTo/2":                                                   true,
	"mktfhe.BinaryEvaluator/XNORParallelTo/1":                                         true,
	"mktfhe.BinaryEvaluator/XNORParallelTo/2":                                         true,
	"mktfhe.BinaryEvaluator/XNORTo/1":                                                 true,
	"mktfhe.BinaryEvaluator/XNORTo/2":                                                 true,
	"mktfhe.BinaryEvaluator/XORParallelTo/1":                                          true,
	"mktfhe.BinaryEvaluator/XORParallelTo/2":                                          true,
	"mktfhe.BinaryEvaluator/XORTo/1":                                                  true,
	"mktfhe.BinaryEvaluator/XORTo/2":                                                  true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.AddFFTPolyTo/1":                   true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.AddFFTPolyTo/2":                   true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.AddPolyTo/1":                      true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.AddPolyTo/2":                      true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.CmplxMulAddFFTPolyTo/1":           true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.CmplxMulFFTPolyTo/1":              true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.CmplxMulSubFFTPolyTo/1":           true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.FFTPolyMulAddPolyTo/1":            true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.FFTPolyMulPolyTo/1":               true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.FFTPolyMulSubPolyTo/1":            true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.FloatMulAddFFTPolyTo/1":           true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.FloatMulFFTPolyTo/1":              true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.FloatMulSubFFTPolyTo/1":           true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.MulAddFFTPolyTo/1":                true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.MulAddFFTPolyTo/2":                true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.MulAddPolyTo/1":                   true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.MulAddPolyTo/2":                   true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.MulFFTPolyTo/1":                   true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.MulFFTPolyTo/2":                   true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.MulPolyTo/1":                      true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.MulPolyTo/2":                      true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.MulSubFFTPolyTo/1":                true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.MulSubFFTPolyTo/2":                true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.MulSubPolyTo/1":                   true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.MulSubPolyTo/2":                   true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.NegFFTPolyTo/1":                   true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.NegPolyTo/1":                      true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.PolyMulAddFFTPolyTo/1":            true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.PolyMulFFTPolyTo/1":               true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.PolyMulSubFFTPolyTo/1":            true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.ScalarMulAddPolyTo/1":             true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.ScalarMulPolyTo/1":                true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.ScalarMulSubPolyTo/1":             true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.ShortFFTPolyMulAddPolyTo/1":       true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.ShortFFTPolyMulPolyTo/1":          true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.ShortFFTPolyMulSubPolyTo/1":       true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.SubFFTPolyTo/1":                   true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.SubFFTPolyTo/2":                   true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.SubPolyTo/1":                      true,
	"mktfhe.Decryptor/GLWETransformer.PolyEvaluator.SubPolyTo/2":                      true,
	"mktfhe.Evaluator/AddFFTGLWETo/1":                                                 true,
	"mktfhe.Evaluator/AddFFTGLWETo/2":                                                 true,
	"mktfhe.Evaluator/AddGLWETo/1":                                                    true,
	"mktfhe.Evaluator/AddGLWETo/2":                                                    true,
	"mktfhe.Evaluator/AddLWETo/1":                                                     true,
	"mktfhe.Evaluator/AddLWETo/2":                                                     true,
	"mktfhe.Evaluator/AddPlainGLWETo/1":                                               true,
	"mktfhe.Evaluator/AddPlainLWETo/1":                                                true,
	"mktfhe.Evaluator/BootstrapFuncParallelTo/1":                                      true,
	"mktfhe.Evaluator/BootstrapFuncTo/1":                                              true,
	"mktfhe.Evaluator/BootstrapLUTParallelTo/1":                                       true,
	"mktfhe.Evaluator/BootstrapLUTTo/1":                                               true,
	"mktfhe.Evaluator/CmplxMulAddFFTGLWETo/1":                                         true,
	"mktfhe.Evaluator/CmplxMulFFTGLWETo/1":                                            true,
	"mktfhe.Evaluator/CmplxMulSubFFTGLWETo/1":                                         true,
	"mktfhe.Evaluator/ExternalProdAddGLWETo/2":                                        true,
	"mktfhe.Evaluator/ExternalProdGLWETo/2":                                           true,
	"mktfhe.Evaluator/ExternalProdSubGLWETo/2":                                        true,
	"mktfhe.Evaluator/FFTPolyMulAddFFTGLWETo/1":                                       true,
	"mktfhe.Evaluator/FFTPolyMulAddGLWETo/1":                                          true,
	"mktfhe.Evaluator/FFTPolyMulFFTGLWETo/1":                                          true,
	"mktfhe.Evaluator/FFTPolyMulGLWETo/1":                                             true,
	"mktfhe.Evaluator/FFTPolyMulSubFFTGLWETo/1":                                       true,
	"mktfhe.Evaluator/FFTPolyMulSubGLWETo/1":                                          true,
	"mktfhe.Evaluator/FloatMulAddFFTGLWETo/1":                                         true,
	"mktfhe.Evaluator/FloatMulFFTGLWETo/1":                                            true,
	"mktfhe.Evaluator/FloatMulSubFFTGLWETo/1":                                         true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.AddFFTPolyTo/1":                   true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.AddFFTPolyTo/2":                   true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.AddPolyTo/1":                      true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.AddPolyTo/2":                      true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.CmplxMulAddFFTPolyTo/1":           true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.CmplxMulFFTPolyTo/1":              true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.CmplxMulSubFFTPolyTo/1":           true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.FFTPolyMulAddPolyTo/1":            true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.FFTPolyMulPolyTo/1":               true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.FFTPolyMulSubPolyTo/1":            true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.FloatMulAddFFTPolyTo/1":           true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.FloatMulFFTPolyTo/1":              true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.FloatMulSubFFTPolyTo/1":           true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.MulAddFFTPolyTo/1":                true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.MulAddFFTPolyTo/2":                true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.MulAddPolyTo/1":                   true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.MulAddPolyTo/2":                   true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.MulFFTPolyTo/1":                   true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.MulFFTPolyTo/2":                   true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.MulPolyTo/1":                      true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.MulPolyTo/2":                      true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.MulSubFFTPolyTo/1":                true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.MulSubFFTPolyTo/2":                true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.MulSubPolyTo/1":                   true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.MulSubPolyTo/2":                   true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.NegFFTPolyTo/1":                   true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.NegPolyTo/1":                      true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.PolyMulAddFFTPolyTo/1":            true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.PolyMulFFTPolyTo/1":               true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.PolyMulSubFFTPolyTo/1":            true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.ScalarMulAddPolyTo/1":             true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.ScalarMulPolyTo/1":                true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.ScalarMulSubPolyTo/1":             true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.ShortFFTPolyMulAddPolyTo/1":       true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.ShortFFTPolyMulPolyTo/1":          true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.ShortFFTPolyMulSubPolyTo/1":       true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.SubFFTPolyTo/1":                   true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.SubFFTPolyTo/2":                   true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.SubPolyTo/1":                      true,
	"mktfhe.Evaluator/GLWETransformer.PolyEvaluator.SubPolyTo/2":                      true,
	"mktfhe.Evaluator/HybridProdAddGLWETo/2":                                          true,
	"mktfhe.Evaluator/HybridProdGLWETo/2":                                             true,
	"mktfhe.Evaluator/HybridProdSubGLWETo/2":                                          true,
	"mktfhe.Evaluator/NegFFTGLWETo/1":                                                 true,
	"mktfhe.Evaluator/NegGLWETo/1":                                                    true,
	"mktfhe.Evaluator/NegLWETo/1":                                                     true,
	"mktfhe.Evaluator/PolyMulAddFFTGLWETo/1":                                          true,
	"mktfhe.Evaluator/PolyMulAddGLWETo/1":                                             true,
	"mktfhe.Evaluator/PolyMulFFTGLWETo/1":                                             true,
	"mktfhe.Evaluator/PolyMulGLWETo/1":                                                true,
	"mktfhe.Evaluator/PolyMulSubFFTGLWETo/1":                                          true,
	"mktfhe.Evaluator/PolyMulSubGLWETo/1":                                             true,
	"mktfhe.Evaluator/ScalarMulAddGLWETo/1":                                           true,
	"mktfhe.Evaluator/ScalarMulAddLWETo/1":                                            true,
	"mktfhe.Evaluator/ScalarMulGLWETo/1":                                              true,
	"mktfhe.Evaluator/ScalarMulLWETo/1":                                               true,
	"mktfhe.Evaluator/ScalarMulSubGLWETo/1":                                           true,
	"mktfhe.Evaluator/ScalarMulSubLWETo/1":                                            true,
	"mktfhe.Evaluator/SubFFTGLWETo/1":                                                 true,
	"mktfhe.Evaluator/SubFFTGLWETo/2":                                                 true,
	"mktfhe.Evaluator/SubGLWETo/1":                                                    true,
	"mktfhe.Evaluator/SubGLWETo/2":                                                    true,
	"mktfhe.Evaluator/SubLWETo/1":                                                     true,
	"mktfhe.Evaluator/SubLWETo/2":                                                     true,
	"mktfhe.Evaluator/SubPlainGLWETo/1":                                               true,
	"mktfhe.Evaluator/SubPlainLWETo/1":                                                true,
	"mktfhe.GLWETransformer/PolyEvaluator.AddFFTPolyTo/1":                             true,
	"mktfhe.GLWETransformer/PolyEvaluator.AddFFTPolyTo/2":                             true,
	"mktfhe.GLWETransformer/PolyEvaluator.AddPolyTo/1":                                true,
	"mktfhe.GLWETransformer/PolyEvaluator.AddPolyTo/2":                                true,
	"mktfhe.GLWETransformer/PolyEvaluator.CmplxMulAddFFTPolyTo/1":                     true,
	"mktfhe.GLWETransformer/PolyEvaluator.CmplxMulFFTPolyTo/1":                        true,
	"mktfhe.GLWETransformer/PolyEvaluator.CmplxMulSubFFTPolyTo/1":                     true,
	"mktfhe.GLWETransformer/PolyEvaluator.FFTPolyMulAddPolyTo/1":                      true,
	"mktfhe.GLWETransformer/PolyEvaluator.FFTPolyMulPolyTo/1":                         true,
	"mktfhe.GLWETransformer/PolyEvaluator.FFTPolyMulSubPolyTo/1":                      true,
	"mktfhe.GLWETransformer/PolyEvaluator.FloatMulAddFFTPolyTo/1":                     true,
	"mktfhe.GLWETransformer/PolyEvaluator.FloatMulFFTPolyTo/1":                        true,
	"mktfhe.GLWETransformer/PolyEvaluator.FloatMulSubFFTPolyTo/1":                     true,
	"mktfhe.GLWETransformer/PolyEvaluator.MulAddFFTPolyTo/1":                          true,
	"mktfhe.GLWETransformer/PolyEvaluator.MulAddFFTPolyTo/2":                          true,
	"mktfhe.GLWETransformer/PolyEvaluator.MulAddPolyTo/1":                             true,
	"mktfhe.GLWETransformer/PolyEvaluator.MulAddPolyTo/2":                             true,
	"mktfhe.GLWETransformer/PolyEvaluator.MulFFTPolyTo/1":                             true,
	"mktfhe.GLWETransformer/PolyEvaluator.MulFFTPolyTo/2":                             true,
	"mktfhe.GLWETransformer/PolyEvaluator.MulPolyTo/1":                                true,
	"mktfhe.GLWETransformer/PolyEvaluator.MulPolyTo/2":                                true,
	"mktfhe.GLWETransformer/PolyEvaluator.MulSubFFTPolyTo/1":                          true,
	"mktfhe.GLWETransformer/PolyEvaluator.MulSubFFTPolyTo/2":                          true,
	"mktfhe.GLWETransformer/PolyEvaluator.MulSubPolyTo/1":                             true,
	"mktfhe.GLWETransformer/PolyEvaluator.MulSubPolyTo/2":                             true,
	"mktfhe.GLWETransformer/PolyEvaluator.NegFFTPolyTo/1":                             true,
	"mktfhe.GLWETransformer/PolyEvaluator.NegPolyTo/1":                                true,
	"mktfhe.GLWETransformer/PolyEvaluator.PolyMulAddFFTPolyTo/1":                      true,
	"mktfhe.GLWETransformer/PolyEvaluator.PolyMulFFTPolyTo/1":                         true,
	"mktfhe.GLWETransformer/PolyEvaluator.PolyMulSubFFTPolyTo/1":                      true,
	"mktfhe.GLWETransformer/PolyEvaluator.ScalarMulAddPolyTo/1":                       true,
	"mktfhe.GLWETransformer/PolyEvaluator.ScalarMulPolyTo/1":                          true,
	"mktfhe.GLWETransformer/PolyEvaluator.ScalarMulSubPolyTo/1":                       true,
	"mktfhe.GLWETransformer/PolyEvaluator.ShortFFTPolyMulAddPolyTo/1":                 true,
	"mktfhe.GLWETransformer/PolyEvaluator.ShortFFTPolyMulPolyTo/1":                    true,
	"mktfhe.GLWETransformer/PolyEvaluator.ShortFFTPolyMulSubPolyTo/1":                 true,
	"mktfhe.GLWETransformer/PolyEvaluator.SubFFTPolyTo/1":                             true,
	"mktfhe.GLWETransformer/PolyEvaluator.SubFFTPolyTo/2":                             true,
	"mktfhe.GLWETransformer/PolyEvaluator.SubPolyTo/1":                                true,
	"mktfhe.GLWETransformer/PolyEvaluator.SubPolyTo/2":                                true,
	"poly.Evaluator/AddFFTPolyTo/1":                                                   true,
	"poly.Evaluator/AddFFTPolyTo/2":                                                   true,
	"poly.Evaluator/AddPolyTo/1":                                                      true,
	"poly.Evaluator/AddPolyTo/2":                                                      true,
	"poly.Evaluator/CmplxMulAddFFTPolyTo/1":                                           true,
	"poly.Evaluator/CmplxMulFFTPolyTo/1":                                              true,
	"poly.Evaluator/CmplxMulSubFFTPolyTo/1":                                           true,
	"poly.Evaluator/FFTPolyMulAddPolyTo/1":                                            true,
	"poly.Evaluator/FFTPolyMulPolyTo/1":                                               true,
	"poly.Evaluator/FFTPolyMulSubPolyTo/1":                                            true,
	"poly.Evaluator/FloatMulAddFFTPolyTo/1":                                           true,
	"poly.Evaluator/FloatMulFFTPolyTo/1":                                              true,
	"poly.Evaluator/FloatMulSubFFTPolyTo/1":                                           true,
	"poly.Evaluator/MulAddFFTPolyTo/1":                                                true,
	"poly.Evaluator/MulAddFFTPolyTo/2":                                                true,
	"poly.Evaluator/MulAddPolyTo/1":                                                   true,
	"poly.Evaluator/MulAddPolyTo/2":                                                   true,
	"poly.Evaluator/MulFFTPolyTo/1":                                                   true,
	"poly.Evaluator/MulFFTPolyTo/2":                                                   true,
	"poly.Evaluator/MulPolyTo/1":                                                      true,
	"poly.Evaluator/MulPolyTo/2":                                                      true,
	"poly.Evaluator/MulSubFFTPolyTo/1":                                                true,
	"poly.Evaluator/MulSubFFTPolyTo/2":                                                true,
	"poly.Evaluator/MulSubPolyTo/1":                                                   true,
	"poly.Evaluator/MulSubPolyTo/2":                                                   true,
	"poly.Evaluator/NegFFTPolyTo/1":                                                   true,
	"poly.Evaluator/NegPolyTo/1":                                                      true,
	"poly.Evaluator/PolyMulAddFFTPolyTo/1":                                            true,
	"poly.Evaluator/PolyMulFFTPolyTo/1":                                               true,
	"poly.Evaluator/PolyMulSubFFTPolyTo/1":                                            true,
	"poly.Evaluator/ScalarMulAddPolyTo/1":                                             true,
	"poly.Evaluator/ScalarMulPolyTo/1":                                                true,
	"poly.Evaluator/ScalarMulSubPolyTo/1":                                             true,
	"poly.Evaluator/ShortFFTPolyMulAddPolyTo/1":                                       true,
	"poly.Evaluator/ShortFFTPolyMulPolyTo/1":                                          true,
	"poly.Evaluator/ShortFFTPolyMulSubPolyTo/1":                                       true,
	"poly.Evaluator/SubFFTPolyTo/1":                                                   true,
	"poly.Evaluator/SubFFTPolyTo/2":                                                   true,
	"poly.Evaluator/SubPolyTo/1":                                                      true,
	"poly.Evaluator/SubPolyTo/2":                                                      true,
	"tfhe.BinaryEvaluator/ANDTo/1":                                                    true,
	"tfhe.BinaryEvaluator/ANDTo/2":                                                    true,
	"tfhe.BinaryEvaluator/Evaluator.AddFFTGLWETo/1":                                   true,
	"tfhe.BinaryEvaluator/Evaluator.AddFFTGLWETo/2":                                   true,
	"tfhe.BinaryEvaluator/Evaluator.AddGLWETo/1":                                      true,
	"tfhe.BinaryEvaluator/Evaluator.AddGLWETo/2":                                      true,
	"tfhe.BinaryEvaluator/Evaluator.AddLWETo/1":                                       true,
	"tfhe.BinaryEvaluator/Evaluator.AddLWETo/2":                                       true,
	"tfhe.BinaryEvaluator/Evaluator.AddPlainGLWETo/1":                                 true,
	"tfhe.BinaryEvaluator/Evaluator.AddPlainLWETo/1":                                  true,
	"tfhe.BinaryEvaluator/Evaluator.BootstrapFuncTo/1":                                true,
	"tfhe.BinaryEvaluator/Evaluator.BootstrapLUTTo/1":                                 true,
	"tfhe.BinaryEvaluator/Evaluator.CMuxTo/2":                                         true,
	"tfhe.BinaryEvaluator/Evaluator.CMuxTo/3":                                         true,
	"tfhe.BinaryEvaluator/Evaluator.CmplxMulAddFFTGLWETo/1":                           true,
	"tfhe.BinaryEvaluator/Evaluator.CmplxMulFFTGLWETo/1":                              true,
	"tfhe.BinaryEvaluator/Evaluator.CmplxMulSubFFTGLWETo/1":                           true,
	"tfhe.BinaryEvaluator/Evaluator.ExternalProdAddGLWETo/2":                          true,
	"tfhe.BinaryEvaluator/Evaluator.ExternalProdAddLWETo/2":                           true,
	"tfhe.BinaryEvaluator/Evaluator.ExternalProdGLWETo/2":                             true,
	"tfhe.BinaryEvaluator/Evaluator.ExternalProdLWETo/2":                              true,
	"tfhe.BinaryEvaluator/Evaluator.ExternalProdSubGLWETo/2":                          true,
	"tfhe.BinaryEvaluator/Evaluator.ExternalProdSubLWETo/2":                           true,
	"tfhe.BinaryEvaluator/Evaluator.FFTPolyMulAddFFTGLWETo/1":                         true,
	"tfhe.BinaryEvaluator/Evaluator.FFTPolyMulAddGLWETo/1":                            true,
	"tfhe.BinaryEvaluator/Evaluator.FFTPolyMulFFTGLWETo/1":                            true,
	"tfhe.BinaryEvaluator/Evaluator.FFTPolyMulGLWETo/1":                               true,
	"tfhe.BinaryEvaluator/Evaluator.FFTPolyMulSubFFTGLWETo/1":                         true,
	"tfhe.BinaryEvaluator/Evaluator.FFTPolyMulSubGLWETo/1":                            true,
	"tfhe.BinaryEvaluator/Evaluator.FloatMulAddFFTGLWETo/1":                           true,
	"tfhe.BinaryEvaluator/Evaluator.FloatMulFFTGLWETo/1":                              true,
	"tfhe.BinaryEvaluator/Evaluator.FloatMulSubFFTGLWETo/1":                           true,
	"tfhe.BinaryEvaluator/Evaluator.KeySwitchGLWETo/1":                                true,
	"tfhe.BinaryEvaluator/Evaluator.KeySwitchLWETo/1":                                 true,
	"tfhe.BinaryEvaluator/Evaluator.NegFFTGLWETo/1":                                   true,
	"tfhe.BinaryEvaluator/Evaluator.NegGLWETo/1":                                      true,
	"tfhe.BinaryEvaluator/Evaluator.NegLWETo/1":                                       true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.AddFFTPolyTo/1":                     true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.AddFFTPolyTo/2":                     true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.AddPolyTo/1":                        true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.AddPolyTo/2":                        true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.CmplxMulAddFFTPolyTo/1":             true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.CmplxMulFFTPolyTo/1":                true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.CmplxMulSubFFTPolyTo/1":             true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.FFTPolyMulAddPolyTo/1":              true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.FFTPolyMulPolyTo/1":                 true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.FFTPolyMulSubPolyTo/1":              true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.FloatMulAddFFTPolyTo/1":             true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.FloatMulFFTPolyTo/1":                true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.FloatMulSubFFTPolyTo/1":             true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulAddFFTPolyTo/1":                  true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulAddFFTPolyTo/2":                  true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulAddPolyTo/1":                     true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulAddPolyTo/2":                     true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulFFTPolyTo/1":                     true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulFFTPolyTo/2":                     true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulPolyTo/1":                        true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulPolyTo/2":                        true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulSubFFTPolyTo/1":                  true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulSubFFTPolyTo/2":                  true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulSubPolyTo/1":                     true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.MulSubPolyTo/2":                     true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.NegFFTPolyTo/1":                     true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.NegPolyTo/1":                        true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.PolyMulAddFFTPolyTo/1":              true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.PolyMulFFTPolyTo/1":                 true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.PolyMulSubFFTPolyTo/1":              true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.ScalarMulAddPolyTo/1":               true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.ScalarMulPolyTo/1":                  true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.ScalarMulSubPolyTo/1":               true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.ShortFFTPolyMulAddPolyTo/1":         true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.ShortFFTPolyMulPolyTo/1":            true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.ShortFFTPolyMulSubPolyTo/1":         true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.SubFFTPolyTo/1":                     true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.SubFFTPolyTo/2":                     true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.SubPolyTo/1":                        true,
	"tfhe.BinaryEvaluator/Evaluator.PolyEvaluator.SubPolyTo/2":                        true,
	"tfhe.BinaryEvaluator/Evaluator.PolyMulAddFFTGLWETo/1":                            true,
	"tfhe.BinaryEvaluator/Evaluator.PolyMulAddGLWETo/1":                               true,
	"tfhe.BinaryEvaluator/Evaluator.PolyMulFFTGLWETo/1":                               true,
	"tfhe.BinaryEvaluator/Evaluator.PolyMulGLWETo/1":                                  true,
	"tfhe.BinaryEvaluator/Evaluator.PolyMulSubFFTGLWETo/1":                            true,
	"tfhe.BinaryEvaluator/Evaluator.PolyMulSubGLWETo/1":                               true,
	"tfhe.BinaryEvaluator/Evaluator.ScalarMulAddGLWETo/1":                             true,
	"tfhe.BinaryEvaluator/Evaluator.ScalarMulAddLWETo/1":                              true,
	"tfhe.BinaryEvaluator/Evaluator.ScalarMulGLWETo/1":                                true,
	"tfhe.BinaryEvaluator/Evaluator.ScalarMulLWETo/1":                                 true,
	"tfhe.BinaryEvaluator/Evaluator.ScalarMulSubGLWETo/1":                             true,
	"tfhe.BinaryEvaluator/Evaluator.ScalarMulSubLWETo/1":                              true,
	"tfhe.BinaryEvaluator/Evaluator.SubFFTGLWETo/1":                                   true,
	"tfhe.BinaryEvaluator/Evaluator.SubFFTGLWETo/2":                                   true,
	"tfhe.BinaryEvaluator/Evaluator.SubGLWETo/1":                                      true,
	"tfhe.BinaryEvaluator/Evaluator.SubGLWETo/2":                                      true,
	"tfhe.BinaryEvaluator/Evaluator.SubLWETo/1":                                       true,
	"tfhe.BinaryEvaluator/Evaluator.SubLWETo/2":                                       true,
	"tfhe.BinaryEvaluator/Evaluator.SubPlainGLWETo/1":                                 true,
	"tfhe.BinaryEvaluator/Evaluator.SubPlainLWETo/1":                                  true,
	"tfhe.BinaryEvaluator/NANDTo/1":                                                   true,
	"tfhe.BinaryEvaluator/NANDTo/2":                                                   true,
	"tfhe.BinaryEvaluator/NORTo/1":                                                    true,
	"tfhe.BinaryEvaluator/NORTo/2":                                                    true,
	"tfhe.BinaryEvaluator/NOTTo/1":                                                    true,
	"tfhe.BinaryEvaluator/ORTo/1":                                                     true,
	"tfhe.BinaryEvaluator/ORTo/2":                                                     true,
	"tfhe.BinaryEvaluator/XNORTo/1":                                                   true,
	"tfhe.BinaryEvaluator/XNORTo/2":                                                   true,
	"tfhe.BinaryEvaluator/XORTo/1":                                                    true,
	"tfhe.BinaryEvaluator/XORTo/2":                                                    true,
	"tfhe.Decomposer/PolyEvaluator.AddFFTPolyTo/1":                                    true,
	"tfhe.Decomposer/PolyEvaluator.AddFFTPolyTo/2":                                    true,
	"tfhe.Decomposer/PolyEvaluator.AddPolyTo/1":                                       true,
	"tfhe.Decomposer/PolyEvaluator.AddPolyTo/2":                                       true,
	"tfhe.Decomposer/PolyEvaluator.CmplxMulAddFFTPolyTo/1":                            true,
	"tfhe.Decomposer/PolyEvaluator.CmplxMulFFTPolyTo/1":                               true,
	"tfhe.Decomposer/PolyEvaluator.CmplxMulSubFFTPolyTo/1":                            true,
	"tfhe.Decomposer/PolyEvaluator.FFTPolyMulAddPolyTo/1":                             true,
	"tfhe.Decomposer/PolyEvaluator.FFTPolyMulPolyTo/1":                                true,
	"tfhe.Decomposer/PolyEvaluator.FFTPolyMulSubPolyTo/1":                             true,
	"tfhe.Decomposer/PolyEvaluator.FloatMulAddFFTPolyTo/1":                            true,
	"tfhe.Decomposer/PolyEvaluator.FloatMulFFTPolyTo/1":                               true,
	"tfhe.Decomposer/PolyEvaluator.FloatMulSubFFTPolyTo/1":                            true,
	"tfhe.Decomposer/PolyEvaluator.MulAddFFTPolyTo/1":                                 true,
	"tfhe.Decomposer/PolyEvaluator.MulAddFFTPolyTo/2":                                 true,
	"tfhe.Decomposer/PolyEvaluator.MulAddPolyTo/1":                                    true,
	"tfhe.Decomposer/PolyEvaluator.MulAddPolyTo/2":                                    true,
	"tfhe.Decomposer/PolyEvaluator.MulFFTPolyTo/1":                                    true,
	"tfhe.Decomposer/PolyEvaluator.MulFFTPolyTo/2":                                    true,
	"tfhe.Decomposer/PolyEvaluator.MulPolyTo/1":                                       true,
	"tfhe.Decomposer/PolyEvaluator.MulPolyTo/2":                                       true,
	"tfhe.Decomposer/PolyEvaluator.MulSubFFTPolyTo/1":                                 true,
	"tfhe.Decomposer/PolyEvaluator.MulSubFFTPolyTo/2":                                 true,
	"tfhe.Decomposer/PolyEvaluator.MulSubPolyTo/1":                                    true,
	"tfhe.Decomposer/PolyEvaluator.MulSubPolyTo/2":                                    true,
	"tfhe.Decomposer/PolyEvaluator.NegFFTPolyTo/1":                                    true,
	"tfhe.Decomposer/PolyEvaluator.NegPolyTo/1":                                       true,
	"tfhe.Decomposer/PolyEvaluator.PolyMulAddFFTPolyTo/1":                             true,
	"tfhe.Decomposer/PolyEvaluator.PolyMulFFTPolyTo/1":                                true,
	"tfhe.Decomposer/PolyEvaluator.PolyMulSubFFTPolyTo/1":                             true,
	"tfhe.Decomposer/PolyEvaluator.ScalarMulAddPolyTo/1":                              true,
	"tfhe.Decomposer/PolyEvaluator.ScalarMulPolyTo/1":                                 true,
	"tfhe.Decomposer/PolyEvaluator.ScalarMulSubPolyTo/1":                              true,
	"tfhe.Decomposer/PolyEvaluator.ShortFFTPolyMulAddPolyTo/1":                        true,
	"tfhe.Decomposer/PolyEvaluator.ShortFFTPolyMulPolyTo/1":                           true,
	"tfhe.Decomposer/PolyEvaluator.ShortFFTPolyMulSubPolyTo/1":                        true,
	"tfhe.Decomposer/PolyEvaluator.SubFFTPolyTo/1":                                    true,
	"tfhe.Decomposer/PolyEvaluator.SubFFTPolyTo/2":                                    true,
	"tfhe.Decomposer/PolyEvaluator.SubPolyTo/1":                                       true,
	"tfhe.Decomposer/PolyEvaluator.SubPolyTo/2":                                       true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.AddFFTPolyTo/1":                     true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.AddFFTPolyTo/2":                     true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.AddPolyTo/1":                        true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.AddPolyTo/2":                        true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.CmplxMulAddFFTPolyTo/1":             true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.CmplxMulFFTPolyTo/1":                true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.CmplxMulSubFFTPolyTo/1":             true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.FFTPolyMulAddPolyTo/1":              true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.FFTPolyMulPolyTo/1":                 true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.FFTPolyMulSubPolyTo/1":              true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.FloatMulAddFFTPolyTo/1":             true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.FloatMulFFTPolyTo/1":                true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.FloatMulSubFFTPolyTo/1":             true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.MulAddFFTPolyTo/1":                  true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.MulAddFFTPolyTo/2":                  true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.MulAddPolyTo/1":                     true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.MulAddPolyTo/2":                     true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.MulFFTPolyTo/1":                     true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.MulFFTPolyTo/2":                     true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.MulPolyTo/1":                        true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.MulPolyTo/2":                        true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.MulSubFFTPolyTo/1":                  true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.MulSubFFTPolyTo/2":                  true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.MulSubPolyTo/1":                     true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.MulSubPolyTo/2":                     true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.NegFFTPolyTo/1":                     true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.NegPolyTo/1":                        true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.PolyMulAddFFTPolyTo/1":              true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.PolyMulFFTPolyTo/1":                 true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.PolyMulSubFFTPolyTo/1":              true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.ScalarMulAddPolyTo/1":               true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.ScalarMulPolyTo/1":                  true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.ScalarMulSubPolyTo/1":               true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.ShortFFTPolyMulAddPolyTo/1":         true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.ShortFFTPolyMulPolyTo/1":            true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.ShortFFTPolyMulSubPolyTo/1":         true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.SubFFTPolyTo/1":                     true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.SubFFTPolyTo/2":                     true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.SubPolyTo/1":                        true,
	"tfhe.Encryptor/GLWETransformer.PolyEvaluator.SubPolyTo/2":                        true,
	"tfhe.Evaluator/AddFFTGLWETo/1":                                                   true,
	"tfhe.Evaluator/AddFFTGLWETo/2":                                                   true,
	"tfhe.Evaluator/AddGLWETo/1":                                                      true,
	"tfhe.Evaluator/AddGLWETo/2":                                                      true,
	"tfhe.Evaluator/AddLWETo/1":                                                       true,
	"tfhe.Evaluator/AddLWETo/2":                                                       true,
	"tfhe.Evaluator/AddPlainGLWETo/1":                                                 true,
	"tfhe.Evaluator/AddPlainLWETo/1":                                                  true,
	"tfhe.Evaluator/BootstrapFuncTo/1":                                                true,
	"tfhe.Evaluator/BootstrapLUTTo/1":                                                 true,
	"tfhe.Evaluator/CMuxTo/2":                                                         true,
	"tfhe.Evaluator/CMuxTo/3":                                                         true,
	"tfhe.Evaluator/CmplxMulAddFFTGLWETo/1":                                           true,
	"tfhe.Evaluator/CmplxMulFFTGLWETo/1":                                              true,
	"tfhe.Evaluator/CmplxMulSubFFTGLWETo/1":                                           true,
	"tfhe.Evaluator/ExternalProdAddGLWETo/2":                                          true,
	"tfhe.Evaluator/ExternalProdAddLWETo/2":                                           true,
	"tfhe.Evaluator/ExternalProdGLWETo/2":                                             true,
	"tfhe.Evaluator/ExternalProdLWETo/2":                                              true,
	"tfhe.Evaluator/ExternalProdSubGLWETo/2":                                          true,
	"tfhe.Evaluator/ExternalProdSubLWETo/2":                                           true,
	"tfhe.Evaluator/FFTPolyMulAddFFTGLWETo/1":                                         true,
	"tfhe.Evaluator/FFTPolyMulAddGLWETo/1":                                            true,
	"tfhe.Evaluator/FFTPolyMulFFTGLWETo/1":                                            true,
	"tfhe.Evaluator/FFTPolyMulGLWETo/1":                                               true,
	"tfhe.Evaluator/FFTPolyMulSubFFTGLWETo/1":                                         true,
	"tfhe.Evaluator/FFTPolyMulSubGLWETo/1":                                            true,
	"tfhe.Evaluator/FloatMulAddFFTGLWETo/1":                                           true,
	"tfhe.Evaluator/FloatMulFFTGLWETo/1":                                              true,
	"tfhe.Evaluator/FloatMulSubFFTGLWETo/1":                                           true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.AddFFTPolyTo/1":                     true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.AddFFTPolyTo/2":                     true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.AddPolyTo/1":                        true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.AddPolyTo/2":                        true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.CmplxMulAddFFTPolyTo/1":             true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.CmplxMulFFTPolyTo/1":                true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.CmplxMulSubFFTPolyTo/1":             true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.FFTPolyMulAddPolyTo/1":              true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.FFTPolyMulPolyTo/1":                 true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.FFTPolyMulSubPolyTo/1":              true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.FloatMulAddFFTPolyTo/1":             true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.FloatMulFFTPolyTo/1":                true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.FloatMulSubFFTPolyTo/1":             true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.MulAddFFTPolyTo/1":                  true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.MulAddFFTPolyTo/2":                  true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.MulAddPolyTo/1":                     true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.MulAddPolyTo/2":                     true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.MulFFTPolyTo/1":                     true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.MulFFTPolyTo/2":                     true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.MulPolyTo/1":                        true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.MulPolyTo/2":                        true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.MulSubFFTPolyTo/1":                  true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.MulSubFFTPolyTo/2":                  true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.MulSubPolyTo/1":                     true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.MulSubPolyTo/2":                     true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.NegFFTPolyTo/1":                     true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.NegPolyTo/1":                        true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.PolyMulAddFFTPolyTo/1":              true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.PolyMulFFTPolyTo/1":                 true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.PolyMulSubFFTPolyTo/1":              true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.ScalarMulAddPolyTo/1":               true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.ScalarMulPolyTo/1":                  true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.ScalarMulSubPolyTo/1":               true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.ShortFFTPolyMulAddPolyTo/1":         true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.ShortFFTPolyMulPolyTo/1":            true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.ShortFFTPolyMulSubPolyTo/1":         true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.SubFFTPolyTo/1":                     true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.SubFFTPolyTo/2":                     true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.SubPolyTo/1":                        true,
	"tfhe.Evaluator/GLWETransformer.PolyEvaluator.SubPolyTo/2":                        true,
	"tfhe.Evaluator/KeySwitchGLWETo/1":                                                true,
	"tfhe.Evaluator/KeySwitchLWETo/1":                                                 true,
	"tfhe.Evaluator/NegFFTGLWETo/1":                                                   true,
	"tfhe.Evaluator/NegGLWETo/1":                                                      true,
	"tfhe.Evaluator/NegLWETo/1":                                                       true,
	"tfhe.Evaluator/PolyMulAddFFTGLWETo/1":                                            true,
	"tfhe.Evaluator/PolyMulAddGLWETo/1":                                               true,
	"tfhe.Evaluator/PolyMulFFTGLWETo/1":                                               true,
	"tfhe.Evaluator/PolyMulGLWETo/1":                                                  true,
	"tfhe.Evaluator/PolyMulSubFFTGLWETo/1":                                            true,
	"tfhe.Evaluator/PolyMulSubGLWETo/1":                                               true,
	"tfhe.Evaluator/ScalarMulAddGLWETo/1":                                             true,
	"tfhe.Evaluator/ScalarMulAddLWETo/1":                                              true,
	"tfhe.Evaluator/ScalarMulGLWETo/1":                                                true,
	"tfhe.Evaluator/ScalarMulLWETo/1":                                                 true,
	"tfhe.Evaluator/ScalarMulSubGLWETo/1":                                             true,
	"tfhe.Evaluator/ScalarMulSubLWETo/1":                                              true,
	"tfhe.Evaluator/SubFFTGLWETo/1":                                                   true,
	"tfhe.Evaluator/SubFFTGLWETo/2":                                                   true,
	"tfhe.Evaluator/SubGLWETo/1":                                                      true,
	"tfhe.Evaluator/SubGLWETo/2":                                                      true,
	"tfhe.Evaluator/SubLWETo/1":                                                       true,
	"tfhe.Evaluator/SubLWETo/2":                                                       true,
	"tfhe.Evaluator/SubPlainGLWETo/1":                                                 true,
	"tfhe.Evaluator/SubPlainLWETo/1":                                                  true,
	"tfhe.GLWETransformer/PolyEvaluator.AddFFTPolyTo/1":                               true,
	"tfhe.GLWETransformer/PolyEvaluator.AddFFTPolyTo/2":                               true,
	"tfhe.GLWETransformer/PolyEvaluator.AddPolyTo/1":                                  true,
	"tfhe.GLWETransformer/PolyEvaluator.AddPolyTo/2":                                  true,
	"tfhe.GLWETransformer/PolyEvaluator.CmplxMulAddFFTPolyTo/1":                       true,
	"tfhe.GLWETransformer/PolyEvaluator.CmplxMulFFTPolyTo/1":                          true,
	"tfhe.GLWETransformer/PolyEvaluator.CmplxMulSubFFTPolyTo/1":                       true,
	"tfhe.GLWETransformer/PolyEvaluator.FFTPolyMulAddPolyTo/1":                        true,
	"tfhe.GLWETransformer/PolyEvaluator.FFTPolyMulPolyTo/1":                           true,
	"tfhe.GLWETransformer/PolyEvaluator.FFTPolyMulSubPolyTo/1":                        true,
	"tfhe.GLWETransformer/PolyEvaluator.FloatMulAddFFTPolyTo/1":                       true,
	"tfhe.GLWETransformer/PolyEvaluator.FloatMulFFTPolyTo/1":                          true,
	"tfhe.GLWETransformer/PolyEvaluator.FloatMulSubFFTPolyTo/1":                       true,
	"tfhe.GLWETransformer/PolyEvaluator.MulAddFFTPolyTo/1":                            true,
	"tfhe.GLWETransformer/PolyEvaluator.MulAddFFTPolyTo/2":                            true,
	"tfhe.GLWETransformer/PolyEvaluator.MulAddPolyTo/1":                               true,
	"tfhe.GLWETransformer/PolyEvaluator.MulAddPolyTo/2":                               true,
	"tfhe.GLWETransformer/PolyEvaluator.MulFFTPolyTo/1":                               true,
	"tfhe.GLWETransformer/PolyEvaluator.MulFFTPolyTo/2":                               true,
	"tfhe.GLWETransformer/PolyEvaluator.MulPolyTo/1":                                  true,
	"tfhe.GLWETransformer/PolyEvaluator.MulPolyTo/2":                                  true,
	"tfhe.GLWETransformer/PolyEvaluator.MulSubFFTPolyTo/1":                            true,
	"tfhe.GLWETransformer/PolyEvaluator.MulSubFFTPolyTo/2":                            true,
	"tfhe.GLWETransformer/PolyEvaluator.MulSubPolyTo/1":                               true,
	"tfhe.GLWETransformer/PolyEvaluator.MulSubPolyTo/2":                               true,
	"tfhe.GLWETransformer/PolyEvaluator.NegFFTPolyTo/1":                               true,
	"tfhe.GLWETransformer/PolyEvaluator.NegPolyTo/1":                                  true,
	"tfhe.GLWETransformer/PolyEvaluator.PolyMulAddFFTPolyTo/1":                        true,
	"tfhe.GLWETransformer/PolyEvaluator.PolyMulFFTPolyTo/1":                           true,
	"tfhe.GLWETransformer/PolyEvaluator.PolyMulSubFFTPolyTo/1":                        true,
	"tfhe.GLWETransformer/PolyEvaluator.ScalarMulAddPolyTo/1":                         true,
	"tfhe.GLWETransformer/PolyEvaluator.ScalarMulPolyTo/1":                            true,
	"tfhe.GLWETransformer/PolyEvaluator.ScalarMulSubPolyTo/1":                         true,
	"tfhe.GLWETransformer/PolyEvaluator.ShortFFTPolyMulAddPolyTo/1":                   true,
	"tfhe.GLWETransformer/PolyEvaluator.ShortFFTPolyMulPolyTo/1":                      true,
	"tfhe.GLWETransformer/PolyEvaluator.ShortFFTPolyMulSubPolyTo/1":                   true,
	"tfhe.GLWETransformer/PolyEvaluator.SubFFTPolyTo/1":                               true,
	"tfhe.GLWETransformer/PolyEvaluator.SubFFTPolyTo/2":                               true,
	"tfhe.GLWETransformer/PolyEvaluator.SubPolyTo/1":                                  true,
	"tfhe.GLWETransformer/PolyEvaluator.SubPolyTo/2":                                  true,
	"xtfhe.BFVEvaluator/Evaluator.AddFFTGLWETo/1":                                     true,
	"xtfhe.BFVEvaluator/Evaluator.AddFFTGLWETo/2":                                     true,
	"xtfhe.BFVEvaluator/Evaluator.AddGLWETo/1":                                        true,
	"xtfhe.BFVEvaluator/Evaluator.AddGLWETo/2":                                        true,
	"xtfhe.BFVEvaluator/Evaluator.AddLWETo/1":                                         true,
	"xtfhe.BFVEvaluator/Evaluator.AddLWETo/2":                                         true,
	"xtfhe.BFVEvaluator/Evaluator.AddPlainGLWETo/1":                                   true,
	"xtfhe.BFVEvaluator/Evaluator.AddPlainLWETo/1":                                    true,
	"xtfhe.BFVEvaluator/Evaluator.CMuxTo/2":                                           true,
	"xtfhe.BFVEvaluator/Evaluator.CMuxTo/3":                                           true,
	"xtfhe.BFVEvaluator/Evaluator.CmplxMulAddFFTGLWETo/1":                             true,
	"xtfhe.BFVEvaluator/Evaluator.CmplxMulFFTGLWETo/1":                                true,
	"xtfhe.BFVEvaluator/Evaluator.CmplxMulSubFFTGLWETo/1":                             true,
	"xtfhe.BFVEvaluator/Evaluator.ExternalProdAddGLWETo/2":                            true,
	"xtfhe.BFVEvaluator/Evaluator.ExternalProdAddLWETo/2":                             true,
	"xtfhe.BFVEvaluator/Evaluator.ExternalProdGLWETo/2":                               true,
	"xtfhe.BFVEvaluator/Evaluator.ExternalProdLWETo/2":                                true,
	"xtfhe.BFVEvaluator/Evaluator.ExternalProdSubGLWETo/2":                            true,
	"xtfhe.BFVEvaluator/Evaluator.ExternalProdSubLWETo/2":                             true,
	"xtfhe.BFVEvaluator/Evaluator.FFTPolyMulAddFFTGLWETo/1":                           true,
	"xtfhe.BFVEvaluator/Evaluator.FFTPolyMulAddGLWETo/1":                              true,
	"xtfhe.BFVEvaluator/Evaluator.FFTPolyMulFFTGLWETo/1":                              true,
	"xtfhe.BFVEvaluator/Evaluator.FFTPolyMulGLWETo/1":                                 true,
	"xtfhe.BFVEvaluator/Evaluator.FFTPolyMulSubFFTGLWETo/1":                           true,
	"xtfhe.BFVEvaluator/Evaluator.FFTPolyMulSubGLWETo/1":                              true,
	"xtfhe.BFVEvaluator/Evaluator.FloatMulAddFFTGLWETo/1":                             true,
	"xtfhe.BFVEvaluator/Evaluator.FloatMulFFTGLWETo/1":                                true,
	"xtfhe.BFVEvaluator/Evaluator.FloatMulSubFFTGLWETo/1":                             true,
	"xtfhe.BFVEvaluator/Evaluator.KeySwitchGLWETo/1":                                  true,
	"xtfhe.BFVEvaluator/Evaluator.KeySwitchLWETo/1":                                   true,
	"xtfhe.BFVEvaluator/Evaluator.NegFFTGLWETo/1":                                     true,
	"xtfhe.BFVEvaluator/Evaluator.NegGLWETo/1":                                        true,
	"xtfhe.BFVEvaluator/Evaluator.NegLWETo/1":                                         true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.AddFFTPolyTo/1":                       true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.AddFFTPolyTo/2":                       true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.AddPolyTo/1":                          true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.AddPolyTo/2":                          true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.CmplxMulAddFFTPolyTo/1":               true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.CmplxMulFFTPolyTo/1":                  true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.CmplxMulSubFFTPolyTo/1":               true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.FFTPolyMulAddPolyTo/1":                true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.FFTPolyMulPolyTo/1":                   true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.FFTPolyMulSubPolyTo/1":                true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.FloatMulAddFFTPolyTo/1":               true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.FloatMulFFTPolyTo/1":                  true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.FloatMulSubFFTPolyTo/1":               true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.MulAddFFTPolyTo/1":                    true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.MulAddFFTPolyTo/2":                    true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.MulAddPolyTo/1":                       true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.MulAddPolyTo/2":                       true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.MulFFTPolyTo/1":                       true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.MulFFTPolyTo/2":                       true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.MulPolyTo/1":                          true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.MulPolyTo/2":                          true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.MulSubFFTPolyTo/1":                    true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.MulSubFFTPolyTo/2":                    true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.MulSubPolyTo/1":                       true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.MulSubPolyTo/2":                       true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.NegFFTPolyTo/1":                       true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.NegPolyTo/1":                          true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.PolyMulAddFFTPolyTo/1":                true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.PolyMulFFTPolyTo/1":                   true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.PolyMulSubFFTPolyTo/1":                true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.ScalarMulAddPolyTo/1":                 true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.ScalarMulPolyTo/1":                    true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.ScalarMulSubPolyTo/1":                 true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.ShortFFTPolyMulAddPolyTo/1":           true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.ShortFFTPolyMulPolyTo/1":              true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.ShortFFTPolyMulSubPolyTo/1":           true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.SubFFTPolyTo/1":                       true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.SubFFTPolyTo/2":                       true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.SubPolyTo/1":                          true,
	"xtfhe.BFVEvaluator/Evaluator.PolyEvaluator.SubPolyTo/2":                          true,
	"xtfhe.BFVEvaluator/Evaluator.PolyMulAddFFTGLWETo/1":                              true,
	"xtfhe.BFVEvaluator/Evaluator.PolyMulAddGLWETo/1":                                 true,
	"xtfhe.BFVEvaluator/Evaluator.PolyMulFFTGLWETo/1":                                 true,
	"xtfhe.BFVEvaluator/Evaluator.PolyMulGLWETo/1":                                    true,
	"xtfhe.BFVEvaluator/Evaluator.PolyMulSubFFTGLWETo/1":                              true,
	"xtfhe.BFVEvaluator/Evaluator.PolyMulSubGLWETo/1":                                 true,
	"xtfhe.BFVEvaluator/Evaluator.ScalarMulAddGLWETo/1":                               true,
	"xtfhe.BFVEvaluator/Evaluator.ScalarMulAddLWETo/1":                                true,
	"xtfhe.BFVEvaluator/Evaluator.ScalarMulGLWETo/1":                                  true,
	"xtfhe.BFVEvaluator/Evaluator.ScalarMulLWETo/1":                                   true,
	"xtfhe.BFVEvaluator/Evaluator.ScalarMulSubGLWETo/1":                               true,
	"xtfhe.BFVEvaluator/Evaluator.ScalarMulSubLWETo/1":                                true,
	"xtfhe.BFVEvaluator/Evaluator.SubFFTGLWETo/1":                                     true,
	"xtfhe.BFVEvaluator/Evaluator.SubFFTGLWETo/2":                                     true,
	"xtfhe.BFVEvaluator/Evaluator.SubGLWETo/1":                                        true,
	"xtfhe.BFVEvaluator/Evaluator.SubGLWETo/2":                                        true,
	"xtfhe.BFVEvaluator/Evaluator.SubLWETo/1":                                         true,
	"xtfhe.BFVEvaluator/Evaluator.SubLWETo/2":                                         true,
	"xtfhe.BFVEvaluator/Evaluator.SubPlainGLWETo/1":                                   true,
	"xtfhe.BFVEvaluator/Evaluator.SubPlainLWETo/1":                                    true,
	"xtfhe.BFVEvaluator/MulTo/1":                                                      true,
	"xtfhe.BFVEvaluator/MulTo/2":                                                      true,
	"xtfhe.BFVEvaluator/PermuteTo/1":                                                  true,
	"xtfhe.CircuitBootstrapper/AddFFTGLWETo/1":                                        true,
	"xtfhe.CircuitBootstrapper/AddFFTGLWETo/2":                                        true,
	"xtfhe.CircuitBootstrapper/AddGLWETo/1":                                           true,
	"xtfhe.CircuitBootstrapper/AddGLWETo/2":                                           true,
	"xtfhe.CircuitBootstrapper/AddLWETo/1":                                            true,
	"xtfhe.CircuitBootstrapper/AddLWETo/2":                                            true,
	"xtfhe.CircuitBootstrapper/AddPlainGLWETo/1":                                      true,
	"xtfhe.CircuitBootstrapper/AddPlainLWETo/1":                                       true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PermuteTo/1":                              true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.AddFFTPolyTo/1":             true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.AddFFTPolyTo/2":             true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.AddPolyTo/1":                true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.AddPolyTo/2":                true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.CmplxMulAddFFTPolyTo/1":     true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.CmplxMulFFTPolyTo/1":        true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.CmplxMulSubFFTPolyTo/1":     true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.FFTPolyMulAddPolyTo/1":      true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.FFTPolyMulPolyTo/1":         true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.FFTPolyMulSubPolyTo/1":      true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.FloatMulAddFFTPolyTo/1":     true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.FloatMulFFTPolyTo/1":        true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.FloatMulSubFFTPolyTo/1":     true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.MulAddFFTPolyTo/1":          true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.MulAddFFTPolyTo/2":          true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.MulAddPolyTo/1":             true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.MulAddPolyTo/2":             true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.MulFFTPolyTo/1":             true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.MulFFTPolyTo/2":             true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.MulPolyTo/1":                true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.MulPolyTo/2":                true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.MulSubFFTPolyTo/1":          true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.MulSubFFTPolyTo/2":          true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.MulSubPolyTo/1":             true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.MulSubPolyTo/2":             true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.NegFFTPolyTo/1":             true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.NegPolyTo/1":                true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.PolyMulAddFFTPolyTo/1":      true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.PolyMulFFTPolyTo/1":         true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.PolyMulSubFFTPolyTo/1":      true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.ScalarMulAddPolyTo/1":       true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.ScalarMulPolyTo/1":          true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.ScalarMulSubPolyTo/1":       true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.ShortFFTPolyMulAddPolyTo/1": true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.ShortFFTPolyMulPolyTo/1":    true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.ShortFFTPolyMulSubPolyTo/1": true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.SubFFTPolyTo/1":             true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.SubFFTPolyTo/2":             true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.SubPolyTo/1":                true,
	"xtfhe.CircuitBootstrapper/BFVEvaluator.PolyEvaluator.SubPolyTo/2":                true,
	"xtfhe.CircuitBootstrapper/CMuxTo/2":                                              true,
	"xtfhe.CircuitBootstrapper/CMuxTo/3":                                              true,
	"xtfhe.CircuitBootstrapper/CmplxMulAddFFTGLWETo/1":                                true,
	"xtfhe.CircuitBootstrapper/CmplxMulFFTGLWETo/1":                                   true,
	"xtfhe.CircuitBootstrapper/CmplxMulSubFFTGLWETo/1":                                true,
	"xtfhe.CircuitBootstrapper/ExternalProdAddGLWETo/2":                               true,
	"xtfhe.CircuitBootstrapper/ExternalProdAddLWETo/2":                                true,
	"xtfhe.CircuitBootstrapper/ExternalProdGLWETo/2":                                  true,
	"xtfhe.CircuitBootstrapper/ExternalProdLWETo/2":                                   true,
	"xtfhe.CircuitBootstrapper/ExternalProdSubGLWETo/2":                               true,
	"xtfhe.CircuitBootstrapper/ExternalProdSubLWETo/2":                                true,
	"xtfhe.CircuitBootstrapper/FFTPolyMulAddFFTGLWETo/1":                              true,
	"xtfhe.CircuitBootstrapper/FFTPolyMulAddGLWETo/1":                                 true,
	"xtfhe.CircuitBootstrapper/FFTPolyMulFFTGLWETo/1":                                 true,
	"xtfhe.CircuitBootstrapper/FFTPolyMulGLWETo/1":                                    true,
	"xtfhe.CircuitBootstrapper/FFTPolyMulSubFFTGLWETo/1":                              true,
	"xtfhe.CircuitBootstrapper/FFTPolyMulSubGLWETo/1":                                 true,
	"xtfhe.CircuitBootstrapper/FloatMulAddFFTGLWETo/1":                                true,
	"xtfhe.CircuitBootstrapper/FloatMulFFTGLWETo/1":                                   true,
	"xtfhe.CircuitBootstrapper/FloatMulSubFFTGLWETo/1":                                true,
	"xtfhe.CircuitBootstrapper/KeySwitchGLWETo/1":                                     true,
	"xtfhe.CircuitBootstrapper/KeySwitchLWETo/1":                                      true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.AddFFTGLWETo/1":                       true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.AddFFTGLWETo/2":                       true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.AddGLWETo/1":                          true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.AddGLWETo/2":                          true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.AddLWETo/1":                           true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.AddLWETo/2":                           true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.AddPlainGLWETo/1":                     true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.AddPlainLWETo/1":                      true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.CMuxTo/2":                             true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.CMuxTo/3":                             true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.CmplxMulAddFFTGLWETo/1":               true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.CmplxMulFFTGLWETo/1":                  true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.CmplxMulSubFFTGLWETo/1":               true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.AddFFTGLWETo/1":             true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.AddFFTGLWETo/2":             true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.AddGLWETo/1":                true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.AddGLWETo/2":                true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.AddLWETo/1":                 true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.AddLWETo/2":                 true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.AddPlainGLWETo/1":           true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.AddPlainLWETo/1":            true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.BootstrapFuncTo/1":          true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.BootstrapLUTTo/1":           true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.CMuxTo/2":                   true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.CMuxTo/3":                   true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.CmplxMulAddFFTGLWETo/1":     true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.CmplxMulFFTGLWETo/1":        true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.CmplxMulSubFFTGLWETo/1":     true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.ExternalProdAddGLWETo/2":    true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.ExternalProdAddLWETo/2":     true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.ExternalProdGLWETo/2":       true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.ExternalProdLWETo/2":        true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.ExternalProdSubGLWETo/2":    true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.ExternalProdSubLWETo/2":     true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.FFTPolyMulAddFFTGLWETo/1":   true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.FFTPolyMulAddGLWETo/1":      true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.FFTPolyMulFFTGLWETo/1":      true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.FFTPolyMulGLWETo/1":         true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.FFTPolyMulSubFFTGLWETo/1":   true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.FFTPolyMulSubGLWETo/1":      true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.FloatMulAddFFTGLWETo/1":     true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.FloatMulFFTGLWETo/1":        true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.FloatMulSubFFTGLWETo/1":     true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.KeySwitchGLWETo/1":          true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.KeySwitchLWETo/1":           true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.NegFFTGLWETo/1":             true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.NegGLWETo/1":                true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.NegLWETo/1":                 true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.PolyMulAddFFTGLWETo/1":      true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.PolyMulAddGLWETo/1":         true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.PolyMulFFTGLWETo/1":         true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.PolyMulGLWETo/1":            true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.PolyMulSubFFTGLWETo/1":      true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.PolyMulSubGLWETo/1":         true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.ScalarMulAddGLWETo/1":       true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.ScalarMulAddLWETo/1":        true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.ScalarMulGLWETo/1":          true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.ScalarMulLWETo/1":           true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.ScalarMulSubGLWETo/1":       true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.ScalarMulSubLWETo/1":        true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.SubFFTGLWETo/1":             true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.SubFFTGLWETo/2":             true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.SubGLWETo/1":                true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.SubGLWETo/2":                true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.SubLWETo/1":                 true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.SubLWETo/2":                 true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.SubPlainGLWETo/1":           true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.Evaluator.SubPlainLWETo/1":            true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.ExternalProdAddGLWETo/2":              true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.ExternalProdAddLWETo/2":               true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.ExternalProdGLWETo/2":                 true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.ExternalProdLWETo/2":                  true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.ExternalProdSubGLWETo/2":              true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.ExternalProdSubLWETo/2":               true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.FFTPolyMulAddFFTGLWETo/1":             true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.FFTPolyMulAddGLWETo/1":                true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.FFTPolyMulFFTGLWETo/1":                true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.FFTPolyMulGLWETo/1":                   true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.FFTPolyMulSubFFTGLWETo/1":             true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.FFTPolyMulSubGLWETo/1":                true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.FloatMulAddFFTGLWETo/1":               true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.FloatMulFFTGLWETo/1":                  true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.FloatMulSubFFTGLWETo/1":               true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.KeySwitchGLWETo/1":                    true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.KeySwitchLWETo/1":                     true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.NegFFTGLWETo/1":                       true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.NegGLWETo/1":                          true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.NegLWETo/1":                           true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.PolyMulAddFFTGLWETo/1":                true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.PolyMulAddGLWETo/1":                   true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.PolyMulFFTGLWETo/1":                   true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.PolyMulGLWETo/1":                      true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.PolyMulSubFFTGLWETo/1":                true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.PolyMulSubGLWETo/1":                   true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.ScalarMulAddGLWETo/1":                 true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.ScalarMulAddLWETo/1":                  true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.ScalarMulGLWETo/1":                    true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.ScalarMulLWETo/1":                     true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.ScalarMulSubGLWETo/1":                 true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.ScalarMulSubLWETo/1":                  true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.SubFFTGLWETo/1":                       true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.SubFFTGLWETo/2":                       true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.SubGLWETo/1":                          true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.SubGLWETo/2":                          true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.SubLWETo/1":                           true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.SubLWETo/2":                           true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.SubPlainGLWETo/1":                     true,
	"xtfhe.CircuitBootstrapper/ManyLUTEvaluator.SubPlainLWETo/1":                      true,
	"xtfhe.CircuitBootstrapper/NegFFTGLWETo/1":                                        true,
	"xtfhe.CircuitBootstrapper/NegGLWETo/1":                                           true,
	"xtfhe.CircuitBootstrapper/NegLWETo/1":                                            true,
	"xtfhe.CircuitBootstrapper/PermuteTo/1":                                           true,
	"xtfhe.CircuitBootstrapper/PolyMulAddFFTGLWETo/1":                                 true,
	"xtfhe.CircuitBootstrapper/PolyMulAddGLWETo/1":                                    true,
	"xtfhe.CircuitBootstrapper/PolyMulFFTGLWETo/1":                                    true,
	"xtfhe.CircuitBootstrapper/PolyMulGLWETo/1":                                       true,
	"xtfhe.CircuitBootstrapper/PolyMulSubFFTGLWETo/1":                                 true,
	"xtfhe.CircuitBootstrapper/PolyMulSubGLWETo/1":                                    true,
	"xtfhe.CircuitBootstrapper/ScalarMulAddGLWETo/1":                                  true,
	"xtfhe.CircuitBootstrapper/ScalarMulAddLWETo/1":                                   true,
	"xtfhe.CircuitBootstrapper/ScalarMulGLWETo/1":                                     true,
	"xtfhe.CircuitBootstrapper/ScalarMulLWETo/1":                                      true,
	"xtfhe.CircuitBootstrapper/ScalarMulSubGLWETo/1":                                  true,
	"xtfhe.CircuitBootstrapper/ScalarMulSubLWETo/1":                                   true,
	"xtfhe.CircuitBootstrapper/SubFFTGLWETo/1":                                        true,
	"xtfhe.CircuitBootstrapper/SubFFTGLWETo/2":                                        true,
	"xtfhe.CircuitBootstrapper/SubGLWETo/1":                                           true,
	"xtfhe.CircuitBootstrapper/SubGLWETo/2":                                           true,
	"xtfhe.CircuitBootstrapper/SubLWETo/1":                                            true,
	"xtfhe.CircuitBootstrapper/SubLWETo/2":                                            true,
	"xtfhe.CircuitBootstrapper/SubPlainGLWETo/1":                                      true,
	"xtfhe.CircuitBootstrapper/SubPlainLWETo/1":                                       true,
	"xtfhe.FHEWEvaluator/AddFFTGLWETo/1":                                              true,
	"xtfhe.FHEWEvaluator/AddFFTGLWETo/2":                                              true,
	"xtfhe.FHEWEvaluator/AddGLWETo/1":                                                 true,
	"xtfhe.FHEWEvaluator/AddGLWETo/2":                                                 true,
	"xtfhe.FHEWEvaluator/AddLWETo/1":                                                  true,
	"xtfhe.FHEWEvaluator/AddLWETo/2":                                                  true,
	"xtfhe.FHEWEvaluator/AddPlainGLWETo/1":                                            true,
	"xtfhe.FHEWEvaluator/AddPlainLWETo/1":                                             true,
	"xtfhe.FHEWEvaluator/BootstrapFuncTo/1":                                           true,
	"xtfhe.FHEWEvaluator/BootstrapLUTTo/1":                                            true,
	"xtfhe.FHEWEvaluator/CMuxTo/2":                                                    true,
	"xtfhe.FHEWEvaluator/CMuxTo/3":                                                    true,
	"xtfhe.FHEWEvaluator/CmplxMulAddFFTGLWETo/1":                                      true,
	"xtfhe.FHEWEvaluator/CmplxMulFFTGLWETo/1":                                         true,
	"xtfhe.FHEWEvaluator/CmplxMulSubFFTGLWETo/1":                                      true,
	"xtfhe.FHEWEvaluator/Evaluator.AddFFTGLWETo/1":                                    true,
	"xtfhe.FHEWEvaluator/Evaluator.AddFFTGLWETo/2":                                    true,
	"xtfhe.FHEWEvaluator/Evaluator.AddGLWETo/1":                                       true,
	"xtfhe.FHEWEvaluator/Evaluator.AddGLWETo/2":                                       true,
	"xtfhe.FHEWEvaluator/Evaluator.AddLWETo/1":                                        true,
	"xtfhe.FHEWEvaluator/Evaluator.AddLWETo/2":                                        true,
	"xtfhe.FHEWEvaluator/Evaluator.AddPlainGLWETo/1":                                  true,
	"xtfhe.FHEWEvaluator/Evaluator.AddPlainLWETo/1":                                   true,
	"xtfhe.FHEWEvaluator/Evaluator.CMuxTo/2":                                          true,
	"xtfhe.FHEWEvaluator/Evaluator.CMuxTo/3":                                          true,
	"xtfhe.FHEWEvaluator/Evaluator.CmplxMulAddFFTGLWETo/1":                            true,
	"xtfhe.FHEWEvaluator/Evaluator.CmplxMulFFTGLWETo/1":                               true,
	"xtfhe.FHEWEvaluator/Evaluator.CmplxMulSubFFTGLWETo/1":                            true,
	"xtfhe.FHEWEvaluator/Evaluator.ExternalProdAddGLWETo/2":                           true,
	"xtfhe.FHEWEvaluator/Evaluator.ExternalProdAddLWETo/2":                            true,
	"xtfhe.FHEWEvaluator/Evaluator.ExternalProdGLWETo/2":                              true,
	"xtfhe.FHEWEvaluator/Evaluator.ExternalProdLWETo/2":                               true,
	"xtfhe.FHEWEvaluator/Evaluator.ExternalProdSubGLWETo/2":                           true,
	"xtfhe.FHEWEvaluator/Evaluator.ExternalProdSubLWETo/2":                            true,
	"xtfhe.FHEWEvaluator/Evaluator.FFTPolyMulAddFFTGLWETo/1":                          true,
	"xtfhe.FHEWEvaluator/Evaluator.FFTPolyMulAddGLWETo/1":                             true,
	"xtfhe.FHEWEvaluator/Evaluator.FFTPolyMulFFTGLWETo/1":                             true,
	"xtfhe.FHEWEvaluator/Evaluator.FFTPolyMulGLWETo/1":                                true,
	"xtfhe.FHEWEvaluator/Evaluator.FFTPolyMulSubFFTGLWETo/1":                          true,
	"xtfhe.FHEWEvaluator/Evaluator.FFTPolyMulSubGLWETo/1":                             true,
	"xtfhe.FHEWEvaluator/Evaluator.FloatMulAddFFTGLWETo/1":                            true,
	"xtfhe.FHEWEvaluator/Evaluator.FloatMulFFTGLWETo/1":                               true,
	"xtfhe.FHEWEvaluator/Evaluator.FloatMulSubFFTGLWETo/1":                            true,
	"xtfhe.FHEWEvaluator/Evaluator.KeySwitchGLWETo/1":                                 true,
	"xtfhe.FHEWEvaluator/Evaluator.KeySwitchLWETo/1":                                  true,
	"xtfhe.FHEWEvaluator/Evaluator.NegFFTGLWETo/1":                                    true,
	"xtfhe.FHEWEvaluator/Evaluator.NegGLWETo/1":                                       true,
	"xtfhe.FHEWEvaluator/Evaluator.NegLWETo/1":                                        true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.AddFFTPolyTo/1":                      true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.AddFFTPolyTo/2":                      true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.AddPolyTo/1":                         true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.AddPolyTo/2":                         true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.CmplxMulAddFFTPolyTo/1":              true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.CmplxMulFFTPolyTo/1":                 true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.CmplxMulSubFFTPolyTo/1":              true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.FFTPolyMulAddPolyTo/1":               true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.FFTPolyMulPolyTo/1":                  true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.FFTPolyMulSubPolyTo/1":               true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.FloatMulAddFFTPolyTo/1":              true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.FloatMulFFTPolyTo/1":                 true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.FloatMulSubFFTPolyTo/1":              true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.MulAddFFTPolyTo/1":                   true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.MulAddFFTPolyTo/2":                   true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.MulAddPolyTo/1":                      true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.MulAddPolyTo/2":                      true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.MulFFTPolyTo/1":                      true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.MulFFTPolyTo/2":                      true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.MulPolyTo/1":                         true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.MulPolyTo/2":                         true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.MulSubFFTPolyTo/1":                   true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.MulSubFFTPolyTo/2":                   true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.MulSubPolyTo/1":                      true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.MulSubPolyTo/2":                      true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.NegFFTPolyTo/1":                      true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.NegPolyTo/1":                         true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.PolyMulAddFFTPolyTo/1":               true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.PolyMulFFTPolyTo/1":                  true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.PolyMulSubFFTPolyTo/1":               true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.ScalarMulAddPolyTo/1":                true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.ScalarMulPolyTo/1":                   true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.ScalarMulSubPolyTo/1":                true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.ShortFFTPolyMulAddPolyTo/1":          true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.ShortFFTPolyMulPolyTo/1":             true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.ShortFFTPolyMulSubPolyTo/1":          true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.SubFFTPolyTo/1":                      true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.SubFFTPolyTo/2":                      true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.SubPolyTo/1":                         true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyEvaluator.SubPolyTo/2":                         true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyMulAddFFTGLWETo/1":                             true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyMulAddGLWETo/1":                                true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyMulFFTGLWETo/1":                                true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyMulGLWETo/1":                                   true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyMulSubFFTGLWETo/1":                             true,
	"xtfhe.FHEWEvaluator/Evaluator.PolyMulSubGLWETo/1":                                true,
	"xtfhe.FHEWEvaluator/Evaluator.ScalarMulAddGLWETo/1":                              true,
	"xtfhe.FHEWEvaluator/Evaluator.ScalarMulAddLWETo/1":                               true,
	"xtfhe.FHEWEvaluator/Evaluator.ScalarMulGLWETo/1":                                 true,
	"xtfhe.FHEWEvaluator/Evaluator.ScalarMulLWETo/1":                                  true,
	"xtfhe.FHEWEvaluator/Evaluator.ScalarMulSubGLWETo/1":                              true,
	"xtfhe.FHEWEvaluator/Evaluator.ScalarMulSubLWETo/1":                               true,
	"xtfhe.FHEWEvaluator/Evaluator.SubFFTGLWETo/1":                                    true,
	"xtfhe.FHEWEvaluator/Evaluator.SubFFTGLWETo/2":                                    true,
	"xtfhe.FHEWEvaluator/Evaluator.SubGLWETo/1":                                       true,
	"xtfhe.FHEWEvaluator/Evaluator.SubGLWETo/2":                                       true,
	"xtfhe.FHEWEvaluator/Evaluator.SubLWETo/1":                                        true,
	"xtfhe.FHEWEvaluator/Evaluator.SubLWETo/2":                                        true,
	"xtfhe.FHEWEvaluator/Evaluator.SubPlainGLWETo/1":                                  true,
	"xtfhe.FHEWEvaluator/Evaluator.SubPlainLWETo/1":                                   true,
	"xtfhe.FHEWEvaluator/ExternalProdAddGLWETo/2":                                     true,
	"xtfhe.FHEWEvaluator/ExternalProdAddLWETo/2":                                      true,
	"xtfhe.FHEWEvaluator/ExternalProdGLWETo/2":                                        true,
	"xtfhe.FHEWEvaluator/ExternalProdLWETo/2":                                         true,
	"xtfhe.FHEWEvaluator/ExternalProdSubGLWETo/2":                                     true,
	"xtfhe.FHEWEvaluator/ExternalProdSubLWETo/2":                                      true,
	"xtfhe.FHEWEvaluator/FFTPolyMulAddFFTGLWETo/1":                                    true,
	"xtfhe.FHEWEvaluator/FFTPolyMulAddGLWETo/1":                                       true,
	"xtfhe.FHEWEvaluator/FFTPolyMulFFTGLWETo/1":                                       true,
	"xtfhe.FHEWEvaluator/FFTPolyMulGLWETo/1":                                          true,
	"xtfhe.FHEWEvaluator/FFTPolyMulSubFFTGLWETo/1":                                    true,
	"xtfhe.FHEWEvaluator/FFTPolyMulSubGLWETo/1":                                       true,
	"xtfhe.FHEWEvaluator/FloatMulAddFFTGLWETo/1":                                      true,
	"xtfhe.FHEWEvaluator/FloatMulFFTGLWETo/1":                                         true,
	"xtfhe.FHEWEvaluator/FloatMulSubFFTGLWETo/1":                                      true,
	"xtfhe.FHEWEvaluator/KeySwitchGLWETo/1":                                           true,
	"xtfhe.FHEWEvaluator/KeySwitchLWETo/1":                                            true,
	"xtfhe.FHEWEvaluator/NegFFTGLWETo/1":                                              true,
	"xtfhe.FHEWEvaluator/NegGLWETo/1":                                                 true,
	"xtfhe.FHEWEvaluator/NegLWETo/1":                                                  true,
	"xtfhe.FHEWEvaluator/PolyMulAddFFTGLWETo/1":                                       true,
	"xtfhe.FHEWEvaluator/PolyMulAddGLWETo/1":                                          true,
	"xtfhe.FHEWEvaluator/PolyMulFFTGLWETo/1":                                          true,
	"xtfhe.FHEWEvaluator/PolyMulGLWETo/1":                                             true,
	"xtfhe.FHEWEvaluator/PolyMulSubFFTGLWETo/1":                                       true,
	"xtfhe.FHEWEvaluator/PolyMulSubGLWETo/1":                                          true,
	"xtfhe.FHEWEvaluator/ScalarMulAddGLWETo/1":                                        true,
	"xtfhe.FHEWEvaluator/ScalarMulAddLWETo/1":                                         true,
	"xtfhe.FHEWEvaluator/ScalarMulGLWETo/1":                                           true,
	"xtfhe.FHEWEvaluator/ScalarMulLWETo/1":                                            true,
	"xtfhe.FHEWEvaluator/ScalarMulSubGLWETo/1":                                        true,
	"xtfhe.FHEWEvaluator/ScalarMulSubLWETo/1":                                         true,
	"xtfhe.FHEWEvaluator/SubFFTGLWETo/1":                                              true,
	"xtfhe.FHEWEvaluator/SubFFTGLWETo/2":                                              true,
	"xtfhe.FHEWEvaluator/SubGLWETo/1":                                                 true,
	"xtfhe.FHEWEvaluator/SubGLWETo/2":                                                 true,
	"xtfhe.FHEWEvaluator/SubLWETo/1":                                                  true,
	"xtfhe.FHEWEvaluator/SubLWETo/2":                                                  true,
	"xtfhe.FHEWEvaluator/SubPlainGLWETo/1":                                            true,
	"xtfhe.FHEWEvaluator/SubPlainLWETo/1":                                             true,
	"xtfhe.ManyLUTEvaluator/AddFFTGLWETo/1":                                           true,
	"xtfhe.ManyLUTEvaluator/AddFFTGLWETo/2":                                           true,
	"xtfhe.ManyLUTEvaluator/AddGLWETo/1":                                              true,
	"xtfhe.ManyLUTEvaluator/AddGLWETo/2":                                              true,
	"xtfhe.ManyLUTEvaluator/AddLWETo/1":                                               true,
	"xtfhe.ManyLUTEvaluator/AddLWETo/2":                                               true,
	"xtfhe.ManyLUTEvaluator/AddPlainGLWETo/1":                                         true,
	"xtfhe.ManyLUTEvaluator/AddPlainLWETo/1":                                          true,
	"xtfhe.ManyLUTEvaluator/CMuxTo/2":                                                 true,
	"xtfhe.ManyLUTEvaluator/CMuxTo/3":                                                 true,
	"xtfhe.ManyLUTEvaluator/CmplxMulAddFFTGLWETo/1":                                   true,
	"xtfhe.ManyLUTEvaluator/CmplxMulFFTGLWETo/1":                                      true,
	"xtfhe.ManyLUTEvaluator/CmplxMulSubFFTGLWETo/1":                                   true,
	"xtfhe.ManyLUTEvaluator/Evaluator.AddFFTGLWETo/1":                                 true,
	"xtfhe.ManyLUTEvaluator/Evaluator.AddFFTGLWETo/2":                                 true,
	"xtfhe.ManyLUTEvaluator/Evaluator.AddGLWETo/1":                                    true,
	"xtfhe.ManyLUTEvaluator/Evaluator.AddGLWETo/2":                                    true,
	"xtfhe.ManyLUTEvaluator/Evaluator.AddLWETo/1":                                     true,
	"xtfhe.ManyLUTEvaluator/Evaluator.AddLWETo/2":                                     true,
	"xtfhe.ManyLUTEvaluator/Evaluator.AddPlainGLWETo/1":                               true,
	"xtfhe.ManyLUTEvaluator/Evaluator.AddPlainLWETo/1":                                true,
	"xtfhe.ManyLUTEvaluator/Evaluator.BootstrapFuncTo/1":                              true,
	"xtfhe.ManyLUTEvaluator/Evaluator.BootstrapLUTTo/1":                               true,
	"xtfhe.ManyLUTEvaluator/Evaluator.CMuxTo/2":                                       true,
	"xtfhe.ManyLUTEvaluator/Evaluator.CMuxTo/3":                                       true,
	"xtfhe.ManyLUTEvaluator/Evaluator.CmplxMulAddFFTGLWETo/1":                         true,
	"xtfhe.ManyLUTEvaluator/Evaluator.CmplxMulFFTGLWETo/1":                            true,
	"xtfhe.ManyLUTEvaluator/Evaluator.CmplxMulSubFFTGLWETo/1":                         true,
	"xtfhe.ManyLUTEvaluator/Evaluator.ExternalProdAddGLWETo/2":                        true,
	"xtfhe.ManyLUTEvaluator/Evaluator.ExternalProdAddLWETo/2":                         true,
	"xtfhe.ManyLUTEvaluator/Evaluator.ExternalProdGLWETo/2":                           true,
	"xtfhe.ManyLUTEvaluator/Evaluator.ExternalProdLWETo/2":                            true,
	"xtfhe.ManyLUTEvaluator/Evaluator.ExternalProdSubGLWETo/2":                        true,
	"xtfhe.ManyLUTEvaluator/Evaluator.ExternalProdSubLWETo/2":                         true,
	"xtfhe.ManyLUTEvaluator/Evaluator.FFTPolyMulAddFFTGLWETo/1":                       true,
	"xtfhe.ManyLUTEvaluator/Evaluator.FFTPolyMulAddGLWETo/1":                          true,
	"xtfhe.ManyLUTEvaluator/Evaluator.FFTPolyMulFFTGLWETo/1":                          true,
	"xtfhe.ManyLUTEvaluator/Evaluator.FFTPolyMulGLWETo/1":                             true,
	"xtfhe.ManyLUTEvaluator/Evaluator.FFTPolyMulSubFFTGLWETo/1":                       true,
	"xtfhe.ManyLUTEvaluator/Evaluator.FFTPolyMulSubGLWETo/1":                          true,
	"xtfhe.ManyLUTEvaluator/Evaluator.FloatMulAddFFTGLWETo/1":                         true,
	"xtfhe.ManyLUTEvaluator/Evaluator.FloatMulFFTGLWETo/1":                            true,
	"xtfhe.ManyLUTEvaluator/Evaluator.FloatMulSubFFTGLWETo/1":                         true,
	"xtfhe.ManyLUTEvaluator/Evaluator.KeySwitchGLWETo/1":                              true,
	"xtfhe.ManyLUTEvaluator/Evaluator.KeySwitchLWETo/1":                               true,
	"xtfhe.ManyLUTEvaluator/Evaluator.NegFFTGLWETo/1":                                 true,
	"xtfhe.ManyLUTEvaluator/Evaluator.NegGLWETo/1":                                    true,
	"xtfhe.ManyLUTEvaluator/Evaluator.NegLWETo/1":                                     true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.AddFFTPolyTo/1":                   true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.AddFFTPolyTo/2":                   true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.AddPolyTo/1":                      true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.AddPolyTo/2":                      true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.CmplxMulAddFFTPolyTo/1":           true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.CmplxMulFFTPolyTo/1":              true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.CmplxMulSubFFTPolyTo/1":           true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.FFTPolyMulAddPolyTo/1":            true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.FFTPolyMulPolyTo/1":               true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.FFTPolyMulSubPolyTo/1":            true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.FloatMulAddFFTPolyTo/1":           true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.FloatMulFFTPolyTo/1":              true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.FloatMulSubFFTPolyTo/1":           true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.MulAddFFTPolyTo/1":                true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.MulAddFFTPolyTo/2":                true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.MulAddPolyTo/1":                   true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.MulAddPolyTo/2":                   true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.MulFFTPolyTo/1":                   true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.MulFFTPolyTo/2":                   true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.MulPolyTo/1":                      true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.MulPolyTo/2":                      true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.MulSubFFTPolyTo/1":                true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.MulSubFFTPolyTo/2":                true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.MulSubPolyTo/1":                   true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.MulSubPolyTo/2":                   true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.NegFFTPolyTo/1":                   true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.NegPolyTo/1":                      true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.PolyMulAddFFTPolyTo/1":            true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.PolyMulFFTPolyTo/1":               true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.PolyMulSubFFTPolyTo/1":            true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.ScalarMulAddPolyTo/1":             true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.ScalarMulPolyTo/1":                true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.ScalarMulSubPolyTo/1":             true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.ShortFFTPolyMulAddPolyTo/1":       true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.ShortFFTPolyMulPolyTo/1":          true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.ShortFFTPolyMulSubPolyTo/1":       true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.SubFFTPolyTo/1":                   true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.SubFFTPolyTo/2":                   true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.SubPolyTo/1":                      true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyEvaluator.SubPolyTo/2":                      true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyMulAddFFTGLWETo/1":                          true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyMulAddGLWETo/1":                             true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyMulFFTGLWETo/1":                             true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyMulGLWETo/1":                                true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyMulSubFFTGLWETo/1":                          true,
	"xtfhe.ManyLUTEvaluator/Evaluator.PolyMulSubGLWETo/1":                             true,
	"xtfhe.ManyLUTEvaluator/Evaluator.ScalarMulAddGLWETo/1":                           true,
	"xtfhe.ManyLUTEvaluator/Evaluator.ScalarMulAddLWETo/1":                            true,
	"xtfhe.ManyLUTEvaluator/Evaluator.ScalarMulGLWETo/1":                              true,
	"xtfhe.ManyLUTEvaluator/Evaluator.ScalarMulLWETo/1":                               true,
	"xtfhe.ManyLUTEvaluator/Evaluator.ScalarMulSubGLWETo/1":                           true,
	"xtfhe.ManyLUTEvaluator/Evaluator.ScalarMulSubLWETo/1":                            true,
	"xtfhe.ManyLUTEvaluator/Evaluator.SubFFTGLWETo/1":                                 true,
	"xtfhe.ManyLUTEvaluator/Evaluator.SubFFTGLWETo/2":                                 true,
	"xtfhe.ManyLUTEvaluator/Evaluator.SubGLWETo/1":                                    true,
	"xtfhe.ManyLUTEvaluator/Evaluator.SubGLWETo/2":                                    true,
	"xtfhe.ManyLUTEvaluator/Evaluator.SubLWETo/1":                                     true,
	"xtfhe.ManyLUTEvaluator/Evaluator.SubLWETo/2":                                     true,
	"xtfhe.ManyLUTEvaluator/Evaluator.SubPlainGLWETo/1":                               true,
	"xtfhe.ManyLUTEvaluator/Evaluator.SubPlainLWETo/1":                                true,
	"xtfhe.ManyLUTEvaluator/ExternalProdAddGLWETo/2":                                  true,
	"xtfhe.ManyLUTEvaluator/ExternalProdAddLWETo/2":                                   true,
	"xtfhe.ManyLUTEvaluator/ExternalProdGLWETo/2":                                     true,
	"xtfhe.ManyLUTEvaluator/ExternalProdLWETo/2":                                      true,
	"xtfhe.ManyLUTEvaluator/ExternalProdSubGLWETo/2":                                  true,
	"xtfhe.ManyLUTEvaluator/ExternalProdSubLWETo/2":                                   true,
	"xtfhe.ManyLUTEvaluator/FFTPolyMulAddFFTGLWETo/1":                                 true,
	"xtfhe.ManyLUTEvaluator/FFTPolyMulAddGLWETo/1":                                    true,
	"xtfhe.ManyLUTEvaluator/FFTPolyMulFFTGLWETo/1":                                    true,
	"xtfhe.ManyLUTEvaluator/FFTPolyMulGLWETo/1":                                       true,
	"xtfhe.ManyLUTEvaluator/FFTPolyMulSubFFTGLWETo/1":                                 true,
	"xtfhe.ManyLUTEvaluator/FFTPolyMulSubGLWETo/1":                                    true,
	"xtfhe.ManyLUTEvaluator/FloatMulAddFFTGLWETo/1":                                   true,
	"xtfhe.ManyLUTEvaluator/FloatMulFFTGLWETo/1":                                      true,
	"xtfhe.ManyLUTEvaluator/FloatMulSubFFTGLWETo/1":                                   true,
	"xtfhe.ManyLUTEvaluator/KeySwitchGLWETo/1":                                        true,
	"xtfhe.ManyLUTEvaluator/KeySwitchLWETo/1":                                         true,
	"xtfhe.ManyLUTEvaluator/NegFFTGLWETo/1":                                           true,
	"xtfhe.ManyLUTEvaluator/NegGLWETo/1":                                              true,
	"xtfhe.ManyLUTEvaluator/NegLWETo/1":                                               true,
	"xtfhe.ManyLUTEvaluator/PolyMulAddFFTGLWETo/1":                                    true,
	"xtfhe.ManyLUTEvaluator/PolyMulAddGLWETo/1":                                       true,
	"xtfhe.ManyLUTEvaluator/PolyMulFFTGLWETo/1":                                       true,
	"xtfhe.ManyLUTEvaluator/PolyMulGLWETo/1":                                          true,
	"xtfhe.ManyLUTEvaluator/PolyMulSubFFTGLWETo/1":                                    true,
	"xtfhe.ManyLUTEvaluator/PolyMulSubGLWETo/1":                                       true,
	"xtfhe.ManyLUTEvaluator/ScalarMulAddGLWETo/1":                                     true,
	"xtfhe.ManyLUTEvaluator/ScalarMulAddLWETo/1":                                      true,
	"xtfhe.ManyLUTEvaluator/ScalarMulGLWETo/1":                                        true,
	"xtfhe.ManyLUTEvaluator/ScalarMulLWETo/1":                                         true,
	"xtfhe.ManyLUTEvaluator/ScalarMulSubGLWETo/1":                                     true,
	"xtfhe.ManyLUTEvaluator/ScalarMulSubLWETo/1":                                      true,
	"xtfhe.ManyLUTEvaluator/SubFFTGLWETo/1":                                           true,
	"xtfhe.ManyLUTEvaluator/SubFFTGLWETo/2":                                           true,
	"xtfhe.ManyLUTEvaluator/SubGLWETo/1":                                              true,
	"xtfhe.ManyLUTEvaluator/SubGLWETo/2":                                              true,
	"xtfhe.ManyLUTEvaluator/SubLWETo/1":                                               true,
	"xtfhe.ManyLUTEvaluator/SubLWETo/2":                                               true,
	"xtfhe.ManyLUTEvaluator/SubPlainGLWETo/1":                                         true,
	"xtfhe.ManyLUTEvaluator/SubPlainLWETo/1":                                          true,
}
