// generated by tools/gen_ref.py
#pragma once
static const float t_sin_lo[2048] = {
-1.50000005e-06f,0.00306645688f,0.00613438478f,0.00920225494f,0.012270038f,0.0153377065f,0.0184052307f,0.0214725807f,0.0245397277f,0.0276066456f,0.0306733027f,0.0337396711f,
0.0368057229f,0.0398714282f,0.0429367572f,0.0460016839f,0.0490661748f,0.0521302037f,0.0551937446f,0.058256764f,0.0613192357f,0.06438113f,0.0674424171f,0.070503071f,
0.0735630617f,0.0766223595f,0.0796809345f,0.0827387646f,0.0857958123f,0.0888520554f,0.0919074565f,0.0949619934f,0.0980156437f,0.101068363f,0.104120135f,0.107170925f,
0.110220708f,0.113269456f,0.116317131f,0.119363718f,0.122409172f,0.125453487f,0.128496617f,0.131538525f,0.134579211f,0.137618616f,0.140656739f,0.143693537f,
0.146728978f,0.149763033f,0.152795687f,0.155826896f,0.158856645f,0.161884889f,0.164911628f,0.167936802f,0.170960382f,0.173982367f,0.177002713f,0.180021405f,
0.183038384f,0.186053649f,0.18906717f,0.192078903f,0.195088819f,0.198096916f,0.201103136f,0.204107463f,0.207109883f,0.210110337f,0.213108823f,0.216105297f,
0.219099745f,0.222092122f,0.225082412f,0.228070587f,0.231056616f,0.234040454f,0.237022102f,0.240001529f,0.242978677f,0.245953545f,0.248926103f,0.251896322f,
0.254864156f,0.257829607f,0.260792613f,0.263753176f,0.266711265f,0.269666821f,0.272619843f,0.275570333f,0.2785182f,0.281463444f,0.284406036f,0.287345946f,
0.290283173f,0.293217659f,0.296149403f,0.299078315f,0.302004457f,0.304927737f,0.307848126f,0.310765654f,0.313680232f,0.316591889f,0.319500536f,0.322406173f,
0.3253088f,0.328208357f,0.331104815f,0.333998144f,0.336888343f,0.339775383f,0.342659205f,0.345539838f,0.348417193f,0.351291269f,0.354162037f,0.357029468f,
0.359893531f,0.362754226f,0.365611494f,0.368465334f,0.371315688f,0.374162555f,0.377005905f,0.379845709f,0.382681936f,0.385514557f,0.388343543f,0.391168892f,
0.393990546f,0.396808475f,0.399622709f,0.402433157f,0.40523982f,0.408042669f,0.410841674f,0.413636804f,0.416428059f,0.419215381f,0.421998769f,0.424778193f,
0.427553594f,0.430324972f,0.433092326f,0.435855567f,0.438614726f,0.441369772f,0.444120646f,0.446867347f,0.449609816f,0.452348083f,0.455082089f,0.457811803f,
0.460537225f,0.463258296f,0.465974987f,0.468687326f,0.471395224f,0.474098712f,0.47679773f,0.479492247f,0.482182264f,0.484867752f,0.487548649f,0.490224987f,
0.492896706f,0.495563775f,0.498226166f,0.500883877f,0.50353688f,0.506185174f,0.50882864f,0.511467338f,0.514101267f,0.516730309f,0.519354463f,0.521973789f,
0.524588168f,0.527197659f,0.529802144f,0.532401621f,0.534996092f,0.537585557f,0.540169954f,0.542749286f,0.545323491f,0.54789257f,0.550456464f,0.553015232f,
0.555568755f,0.558117032f,0.560660064f,0.563197851f,0.565730333f,0.568257451f,0.570779264f,0.573295653f,0.575806677f,0.578312278f,0.580812454f,0.583307147f,
0.585796356f,0.588280022f,0.590758204f,0.593230784f,0.59569782f,0.598159194f,0.600614965f,0.603065073f,0.60550952f,0.607948303f,0.610381305f,0.612808585f,
0.615230083f,0.6176458f,0.620055735f,0.622459769f,0.624857962f,0.627250314f,0.629636765f,0.632017255f,0.634391785f,0.636760354f,0.639122963f,0.641479492f,
0.643830061f,0.64617449f,0.6485129f,0.65084517f,0.65317136f,0.655491352f,0.657805204f,0.660112858f,0.662414253f,0.664709449f,0.666998446f,0.669281065f,
0.671557426f,0.673827529f,0.676091194f,0.678348541f,0.680599511f,0.682844043f,0.685082197f,0.687313855f,0.689539015f,0.691757739f,0.693969965f,0.696175635f,
0.698374748f,0.700567305f,0.702753246f,0.70493257f,0.707105279f,0.709271312f,0.711430669f,0.71358335f,0.715729296f,0.717868567f,0.720000982f,0.722126722f,
0.724245608f,0.726357639f,0.728462875f,0.730561256f,0.732652783f,0.734737396f,0.736815095f,0.73888582f,0.740949631f,0.743006468f,0.745056272f,0.747099102f,
0.749134898f,0.751163661f,0.753185272f,0.75519985f,0.757207334f,0.759207666f,0.761200905f,0.763186932f,0.765165746f,0.767137408f,0.769101858f,0.771059036f,
0.773008943f,0.774951577f,0.77688694f,0.778815031f,0.780735731f,0.7826491f,0.784555078f,0.786453724f,0.78834492f,0.790228724f,0.792105079f,0.793973982f,
0.795835376f,0.797689319f,0.799535751f,0.801374674f,0.803206027f,0.805029809f,0.806846082f,0.808654666f,0.81045568f,0.812249064f,0.81403482f,0.815812886f,
0.817583323f,0.819346011f,0.82110101f,0.82284826f,0.824587822f,0.826319575f,0.82804352f,0.829759717f,0.831468105f,0.833168685f,0.834861398f,0.836546242f,
0.838223219f,0.839892268f,0.84155345f,0.843206763f,0.84485209f,0.846489429f,0.848118842f,0.849740267f,0.851353705f,0.852959096f,0.854556501f,0.856145799f,
0.85772711f,0.859300315f,0.860865414f,0.862422466f,0.863971353f,0.865512133f,0.867044747f,0.868569195f,0.870085478f,0.871593595f,0.873093486f,0.874585152f,
0.876068592f,0.877543807f,0.879010737f,0.880469382f,0.881919742f,0.883361816f,0.884795606f,0.886221051f,0.887638092f,0.889046848f,0.890447199f,0.891839206f,
0.893222809f,0.894598007f,0.895964742f,0.897323072f,0.898672938f,0.9000144f,0.901347339f,0.902671814f,0.903987765f,0.905295253f,0.906594217f,0.907884598f,
0.909166455f,0.910439789f,0.91170454f,0.912960708f,0.914208233f,0.915447235f,0.916677535f,0.917899251f,0.919112325f,0.920316756f,0.921512544f,0.92269963f,
0.923878014f,0.925047755f,0.926208735f,0.927361012f,0.928504586f,0.929639399f,0.93076545f,0.931882739f,0.932991326f,0.934091032f,0.935182035f,0.936264157f,
0.937337518f,0.938402057f,0.939457715f,0.940504551f,0.941542566f,0.9425717f,0.943591952f,0.944603324f,0.945605814f,0.946599424f,0.947584093f,0.948559821f,
0.949526668f,0.950484574f,0.951433539f,0.952373505f,0.953304529f,0.954226613f,0.955139697f,0.95604378f,0.956938863f,0.957824886f,0.958701968f,0.959569991f,
0.960429013f,0.961278975f,0.962119877f,0.962951779f,0.963774562f,0.964588284f,0.965392947f,0.96618849f,0.966974974f,0.967752337f,0.968520582f,0.969279706f,
0.970029771f,0.970770657f,0.971502364f,0.97222501f,0.972938478f,0.973642766f,0.974337876f,0.975023866f,0.975700617f,0.976368248f,0.977026641f,0.977675855f,
0.97831589f,0.978946686f,0.979568243f,0.980180621f,0.980783761f,0.981377721f,0.981962383f,0.982537806f,0.983103991f,0.983660936f,0.984208584f,0.984746993f,
0.985276163f,0.985796034f,0.986306608f,0.986807883f,0.987299919f,0.987782657f,0.988256097f,0.988720179f,0.989175022f,0.989620507f,0.990056694f,0.990483582f,
0.990901113f,0.991309345f,0.991708279f,0.992097795f,0.992478013f,0.992848933f,0.993210435f,0.993562639f,0.993905485f,0.994238973f,0.994563043f,0.994877815f,
0.995183229f,0.995479226f,0.995765924f,0.996043205f,0.996311128f,0.996569633f,0.996818781f,0.99705857f,0.997288942f,0.997509956f,0.997721553f,0.997923791f,
0.998116612f,0.998300016f,0.998474061f,0.99863869f,0.99879396f,0.998939812f,0.999076247f,0.999203265f,0.999320865f,0.999429107f,0.999527931f,0.999617338f,
0.999697328f,0.9997679f,0.999829054f,0.99988085f,0.999923229f,0.999956131f,0.999979675f,0.999993801f,0.99999851f,0.999993801f,0.999979675f,0.999956131f,
0.999923229f,0.99988085f,0.999829054f,0.9997679f,0.999697328f,0.999617338f,0.999527931f,0.999429107f,0.999320865f,0.999203265f,0.999076247f,0.998939812f,
0.99879396f,0.99863869f,0.998474061f,0.998300016f,0.998116612f,0.997923791f,0.997721553f,0.997509956f,0.997288942f,0.99705857f,0.996818781f,0.996569633f,
0.996311128f,0.996043205f,0.995765924f,0.995479226f,0.995183229f,0.994877815f,0.994563043f,0.994238973f,0.993905485f,0.993562639f,0.993210435f,0.992848933f,
0.992478013f,0.992097795f,0.991708279f,0.991309345f,0.990901113f,0.990483582f,0.990056694f,0.989620507f,0.989175022f,0.988720179f,0.988256097f,0.987782657f,
0.987299919f,0.986807883f,0.986306608f,0.985796034f,0.985276163f,0.984746993f,0.984208584f,0.983660936f,0.983103991f,0.982537806f,0.981962383f,0.981377721f,
0.980783761f,0.980180621f,0.979568243f,0.978946686f,0.97831589f,0.977675855f,0.977026641f,0.976368248f,0.975700617f,0.975023866f,0.974337876f,0.973642766f,
0.972938478f,0.97222501f,0.971502364f,0.970770657f,0.970029771f,0.969279706f,0.968520582f,0.967752337f,0.966974974f,0.96618849f,0.965392947f,0.964588284f,
0.963774562f,0.962951779f,0.962119877f,0.961278975f,0.960429013f,0.959569991f,0.958701968f,0.957824886f,0.956938863f,0.95604378f,0.955139697f,0.954226613f,
0.953304529f,0.952373505f,0.951433539f,0.950484574f,0.949526668f,0.948559821f,0.947584093f,0.946599424f,0.945605814f,0.944603324f,0.943591952f,0.9425717f,
0.941542566f,0.940504551f,0.939457715f,0.938402057f,0.937337518f,0.936264157f,0.935182035f,0.934091032f,0.932991326f,0.931882739f,0.93076545f,0.929639399f,
0.928504586f,0.927361012f,0.926208735f,0.925047755f,0.923878014f,0.92269963f,0.921512544f,0.920316756f,0.919112325f,0.917899251f,0.916677535f,0.915447235f,
0.914208233f,0.912960708f,0.91170454f,0.910439789f,0.909166455f,0.907884598f,0.906594217f,0.905295253f,0.903987765f,0.902671814f,0.901347339f,0.9000144f,
0.898672938f,0.897323072f,0.895964742f,0.894598007f,0.893222809f,0.891839206f,0.890447199f,0.889046848f,0.887638092f,0.886221051f,0.884795606f,0.883361816f,
0.881919742f,0.880469382f,0.879010737f,0.877543807f,0.876068592f,0.874585152f,0.873093486f,0.871593595f,0.870085478f,0.868569195f,0.867044747f,0.865512133f,
0.863971353f,0.862422466f,0.860865414f,0.859300315f,0.85772711f,0.856145799f,0.854556501f,0.852959096f,0.851353705f,0.849740267f,0.848118842f,0.846489429f,
0.84485209f,0.843206763f,0.84155345f,0.839892268f,0.838223219f,0.836546242f,0.834861398f,0.833168685f,0.831468105f,0.829759717f,0.82804352f,0.826319575f,
0.824587822f,0.82284826f,0.82110101f,0.819346011f,0.817583323f,0.815812886f,0.81403482f,0.812249064f,0.81045568f,0.808654666f,0.806846082f,0.805029809f,
0.803206027f,0.801374674f,0.799535751f,0.797689319f,0.795835376f,0.793973982f,0.792105079f,0.790228724f,0.78834492f,0.786453724f,0.784555078f,0.7826491f,
0.780735731f,0.778815031f,0.77688694f,0.774951577f,0.773008943f,0.771059036f,0.769101858f,0.767137408f,0.765165746f,0.763186932f,0.761200905f,0.759207666f,
0.757207334f,0.75519985f,0.753185272f,0.751163661f,0.749134898f,0.747099102f,0.745056272f,0.743006468f,0.740949631f,0.73888582f,0.736815095f,0.734737396f,
0.732652783f,0.730561256f,0.728462875f,0.726357639f,0.724245608f,0.722126722f,0.720000982f,0.717868567f,0.715729296f,0.71358335f,0.711430669f,0.709271312f,
0.707105279f,0.70493257f,0.702753246f,0.700567305f,0.698374748f,0.696175635f,0.693969965f,0.691757739f,0.689539015f,0.687313855f,0.685082197f,0.682844043f,
0.680599511f,0.678348541f,0.676091194f,0.673827529f,0.671557426f,0.669281065f,0.666998446f,0.664709449f,0.662414253f,0.660112858f,0.657805204f,0.655491352f,
0.65317136f,0.65084517f,0.6485129f,0.64617449f,0.643830061f,0.641479492f,0.639122963f,0.636760354f,0.634391785f,0.632017255f,0.629636765f,0.627250314f,
0.624857962f,0.622459769f,0.620055735f,0.6176458f,0.615230083f,0.612808585f,0.610381305f,0.607948303f,0.60550952f,0.603065073f,0.600614965f,0.598159194f,
0.59569782f,0.593230784f,0.590758204f,0.588280022f,0.585796356f,0.583307147f,0.580812454f,0.578312278f,0.575806677f,0.573295653f,0.570779264f,0.568257451f,
0.565730333f,0.563197851f,0.560660064f,0.558117032f,0.555568755f,0.553015232f,0.550456464f,0.54789257f,0.545323491f,0.542749286f,0.540169954f,0.537585557f,
0.534996092f,0.532401621f,0.529802144f,0.527197659f,0.524588168f,0.521973789f,0.519354463f,0.516730309f,0.514101267f,0.511467338f,0.50882864f,0.506185174f,
0.50353688f,0.500883877f,0.498226166f,0.495563775f,0.492896706f,0.490224987f,0.487548649f,0.484867752f,0.482182264f,0.479492247f,0.47679773f,0.474098712f,
0.471395224f,0.468687326f,0.465974987f,0.463258296f,0.460537225f,0.457811803f,0.455082089f,0.452348083f,0.449609816f,0.446867347f,0.444120646f,0.441369772f,
0.438614726f,0.435855567f,0.433092326f,0.430324972f,0.427553594f,0.424778193f,0.421998769f,0.419215381f,0.416428059f,0.413636804f,0.410841674f,0.408042669f,
0.40523982f,0.402433157f,0.399622709f,0.396808475f,0.393990546f,0.391168892f,0.388343543f,0.385514557f,0.382681936f,0.379845709f,0.377005905f,0.374162555f,
0.371315688f,0.368465334f,0.365611494f,0.362754226f,0.359893531f,0.357029468f,0.354162037f,0.351291269f,0.348417193f,0.345539838f,0.342659205f,0.339775383f,
0.336888343f,0.333998144f,0.331104815f,0.328208357f,0.3253088f,0.322406173f,0.319500536f,0.316591889f,0.313680232f,0.310765654f,0.307848126f,0.304927737f,
0.302004457f,0.299078315f,0.296149403f,0.293217659f,0.290283173f,0.287345946f,0.284406036f,0.281463444f,0.2785182f,0.275570333f,0.272619843f,0.269666821f,
0.266711265f,0.263753176f,0.260792613f,0.257829607f,0.254864156f,0.251896322f,0.248926103f,0.245953545f,0.242978677f,0.240001529f,0.237022102f,0.234040454f,
0.231056616f,0.228070587f,0.225082412f,0.222092122f,0.219099745f,0.216105297f,0.213108823f,0.210110337f,0.207109883f,0.204107463f,0.201103136f,0.198096916f,
0.195088819f,0.192078903f,0.18906717f,0.186053649f,0.183038384f,0.180021405f,0.177002713f,0.173982367f,0.170960382f,0.167936802f,0.164911628f,0.161884889f,
0.158856645f,0.155826896f,0.152795687f,0.149763033f,0.146728978f,0.143693537f,0.140656739f,0.137618616f,0.134579211f,0.131538525f,0.128496617f,0.125453487f,
0.122409172f,0.119363718f,0.116317131f,0.113269456f,0.110220708f,0.107170925f,0.104120135f,0.101068363f,0.0980156437f,0.0949619934f,0.0919074565f,0.0888520554f,
0.0857958123f,0.0827387646f,0.0796809345f,0.0766223595f,0.0735630617f,0.070503071f,0.0674424171f,0.06438113f,0.0613192357f,0.058256764f,0.0551937446f,0.0521302037f,
0.0490661748f,0.0460016839f,0.0429367572f,0.0398714282f,0.0368057229f,0.0337396711f,0.0306733027f,0.0276066456f,0.0245397277f,0.0214725807f,0.0184052307f,0.0153377065f,
0.012270038f,0.00920225494f,0.00613438478f,0.00306645688f,-1.50000005e-06f,-0.00306945667f,-0.00613738457f,-0.00920525473f,-0.0122730387f,-0.0153407063f,-0.0184082296f,-0.0214755796f,
-0.0245427284f,-0.0276096463f,-0.0306763034f,-0.0337426737f,-0.0368087217f,-0.039874427f,-0.0429397561f,-0.0460046828f,-0.0490691736f,-0.0521332063f,-0.0551967435f,-0.0582597628f,
-0.0613222346f,-0.0643841326f,-0.0674454197f,-0.0705060735f,-0.0735660642f,-0.076625362f,-0.0796839371f,-0.0827417672f,-0.0857988149f,-0.0888550505f,-0.0919104591f,-0.094964996f,
-0.0980186388f,-0.101071365f,-0.10412313f,-0.107173927f,-0.110223711f,-0.113272451f,-0.116320133f,-0.119366713f,-0.122412175f,-0.125456482f,-0.128499612f,-0.131541535f,
-0.134582207f,-0.137621626f,-0.140659735f,-0.143696532f,-0.146731973f,-0.149766028f,-0.152798682f,-0.155829892f,-0.15885964f,-0.161887899f,-0.164914623f,-0.167939797f,
-0.170963392f,-0.173985377f,-0.177005723f,-0.1800244f,-0.183041394f,-0.186056659f,-0.189070165f,-0.192081898f,-0.195091829f,-0.198099911f,-0.201106131f,-0.204110473f,
-0.207112879f,-0.210113332f,-0.213111818f,-0.216108292f,-0.21910274f,-0.222095117f,-0.225085407f,-0.228073582f,-0.231059611f,-0.234043464f,-0.237025112f,-0.240004525f,
-0.242981687f,-0.245956555f,-0.248929113f,-0.251899332f,-0.254867166f,-0.257832617f,-0.260795623f,-0.263756186f,-0.266714245f,-0.269669831f,-0.272622854f,-0.275573313f,
-0.27852118f,-0.281466424f,-0.284409046f,-0.287348956f,-0.290286183f,-0.293220669f,-0.296152383f,-0.299081326f,-0.302007437f,-0.304930717f,-0.307851136f,-0.310768664f,
-0.313683242f,-0.316594869f,-0.319503516f,-0.322409183f,-0.32531178f,-0.328211337f,-0.331107795f,-0.334001154f,-0.336891353f,-0.339778394f,-0.342662215f,-0.345542818f,
-0.348420173f,-0.351294249f,-0.354165018f,-0.357032448f,-0.359896541f,-0.362757236f,-0.365614504f,-0.368468344f,-0.371318698f,-0.374165565f,-0.377008915f,-0.379848719f,
-0.382684946f,-0.385517567f,-0.388346553f,-0.391171873f,-0.393993527f,-0.396811485f,-0.399625689f,-0.402436137f,-0.405242801f,-0.40804565f,-0.410844684f,-0.413639814f,
-0.416431069f,-0.419218391f,-0.422001779f,-0.424781173f,-0.427556604f,-0.430327982f,-0.433095306f,-0.435858577f,-0.438617736f,-0.441372782f,-0.444123656f,-0.446870327f,
-0.449612826f,-0.452351093f,-0.455085099f,-0.457814813f,-0.460540205f,-0.463261276f,-0.465977997f,-0.468690336f,-0.471398234f,-0.474101722f,-0.47680074f,-0.479495257f,
-0.482185274f,-0.484870762f,-0.487551659f,-0.490227997f,-0.492899686f,-0.495566756f,-0.498229176f,-0.500886858f,-0.50353986f,-0.506188154f,-0.50883162f,-0.511470377f,
-0.514104247f,-0.516733289f,-0.519357502f,-0.521976769f,-0.524591208f,-0.527200639f,-0.529805124f,-0.532404602f,-0.534999132f,-0.537588596f,-0.540172994f,-0.542752266f,
-0.545326471f,-0.547895551f,-0.550459445f,-0.553018212f,-0.555571735f,-0.558120012f,-0.560663104f,-0.563200831f,-0.565733314f,-0.568260431f,-0.570782244f,-0.573298693f,
-0.575809717f,-0.578315318f,-0.580815434f,-0.583310127f,-0.585799336f,-0.588283062f,-0.590761185f,-0.593233824f,-0.5957008f,-0.598162234f,-0.600618005f,-0.603068113f,
-0.605512559f,-0.607951283f,-0.610384285f,-0.612811565f,-0.615233064f,-0.61764878f,-0.620058715f,-0.622462809f,-0.624861002f,-0.627253294f,-0.629639745f,-0.632020235f,
-0.634394765f,-0.636763334f,-0.639125943f,-0.641482532f,-0.643833041f,-0.64617753f,-0.64851588f,-0.65084821f,-0.653174341f,-0.655494332f,-0.657808185f,-0.660115838f,
-0.662417293f,-0.664712489f,-0.667001426f,-0.669284105f,-0.671560466f,-0.673830509f,-0.676094174f,-0.678351521f,-0.680602491f,-0.682847023f,-0.685085177f,-0.687316835f,
-0.689542055f,-0.691760778f,-0.693972945f,-0.696178615f,-0.698377728f,-0.700570285f,-0.702756226f,-0.704935551f,-0.707108259f,-0.709274352f,-0.711433709f,-0.71358639f,
-0.715732336f,-0.717871547f,-0.720004022f,-0.722129703f,-0.724248588f,-0.726360679f,-0.728465915f,-0.730564296f,-0.732655764f,-0.734740376f,-0.736818075f,-0.7388888f,
-0.740952611f,-0.743009448f,-0.745059311f,-0.747102082f,-0.749137878f,-0.751166642f,-0.753188312f,-0.755202889f,-0.757210374f,-0.759210706f,-0.761203885f,-0.763189912f,
-0.765168786f,-0.767140388f,-0.769104838f,-0.771062016f,-0.773011982f,-0.774954617f,-0.77688998f,-0.778818011f,-0.780738711f,-0.78265208f,-0.784558117f,-0.786456704f,
-0.7883479f,-0.790231705f,-0.792108059f,-0.793976963f,-0.795838416f,-0.797692358f,-0.799538791f,-0.801377654f,-0.803209007f,-0.805032849f,-0.806849062f,-0.808657706f,
-0.81045872f,-0.812252104f,-0.814037859f,-0.815815926f,-0.817586303f,-0.819348991f,-0.82110399f,-0.8228513f,-0.824590802f,-0.826322556f,-0.82804656f,-0.829762757f,
-0.831471086f,-0.833171666f,-0.834864378f,-0.836549222f,-0.838226199f,-0.839895308f,-0.841556489f,-0.843209743f,-0.84485507f,-0.84649241f,-0.848121822f,-0.849743247f,
-0.851356685f,-0.852962077f,-0.854559481f,-0.856148839f,-0.857730091f,-0.859303296f,-0.860868454f,-0.862425447f,-0.863974333f,-0.865515113f,-0.867047727f,-0.868572235f,
-0.870088518f,-0.871596575f,-0.873096466f,-0.874588132f,-0.876071572f,-0.877546787f,-0.879013717f,-0.880472362f,-0.881922781f,-0.883364856f,-0.884798586f,-0.886224031f,
-0.887641132f,-0.889049828f,-0.890450239f,-0.891842186f,-0.893225789f,-0.894600987f,-0.895967722f,-0.897326052f,-0.898675978f,-0.900017381f,-0.901350319f,-0.902674794f,
-0.903990805f,-0.905298233f,-0.906597197f,-0.907887638f,-0.909169495f,-0.91044277f,-0.91170752f,-0.912963688f,-0.914211273f,-0.915450215f,-0.916680574f,-0.917902291f,
-0.919115365f,-0.920319796f,-0.921515524f,-0.92270261f,-0.923881054f,-0.925050735f,-0.926211715f,-0.927364051f,-0.928507566f,-0.929642379f,-0.93076849f,-0.931885779f,
-0.932994306f,-0.934094071f,-0.935185015f,-0.936267138f,-0.937340498f,-0.938405037f,-0.939460695f,-0.940507591f,-0.941545546f,-0.94257468f,-0.943594933f,-0.944606364f,
-0.945608854f,-0.946602404f,-0.947587073f,-0.94856286f,-0.949529707f,-0.950487554f,-0.95143652f,-0.952376485f,-0.953307569f,-0.954229593f,-0.955142677f,-0.95604676f,
-0.956941843f,-0.957827926f,-0.958704948f,-0.95957303f,-0.960431993f,-0.961282015f,-0.962122917f,-0.96295476f,-0.963777542f,-0.964591265f,-0.965395927f,-0.96619153f,
-0.966977954f,-0.967755318f,-0.968523622f,-0.969282746f,-0.970032752f,-0.970773637f,-0.971505404f,-0.972227991f,-0.972941458f,-0.973645747f,-0.974340856f,-0.975026846f,
-0.975703657f,-0.976371229f,-0.977029622f,-0.977678835f,-0.97831887f,-0.978949666f,-0.979571283f,-0.980183661f,-0.9807868f,-0.981380701f,-0.981965363f,-0.982540786f,
-0.983106971f,-0.983663917f,-0.984211564f,-0.984749973f,-0.985279143f,-0.985799015f,-0.986309588f,-0.986810923f,-0.987302899f,-0.987785637f,-0.988259077f,-0.988723218f,
-0.989178002f,-0.989623547f,-0.990059733f,-0.990486562f,-0.990904152f,-0.991312385f,-0.991711259f,-0.992100835f,-0.992481053f,-0.992851913f,-0.993213475f,-0.993565619f,
-0.993908465f,-0.994241953f,-0.994566083f,-0.994880855f,-0.99518621f,-0.995482266f,-0.995768905f,-0.996046185f,-0.996314108f,-0.996572673f,-0.996821821f,-0.997061551f,
-0.997291982f,-0.997512937f,-0.997724593f,-0.997926772f,-0.998119593f,-0.998303056f,-0.998477101f,-0.998641729f,-0.99879694f,-0.998942792f,-0.999079227f,-0.999206245f,
-0.999323905f,-0.999432087f,-0.999530911f,-0.999620318f,-0.999700308f,-0.99977088f,-0.999832094f,-0.999883831f,-0.999926209f,-0.999959171f,-0.999982655f,-0.999996781f,
-1.00000155f,-0.999996781f,-0.999982655f,-0.999959171f,-0.999926209f,-0.999883831f,-0.999832094f,-0.99977088f,-0.999700308f,-0.999620318f,-0.999530911f,-0.999432087f,
-0.999323905f,-0.999206245f,-0.999079227f,-0.998942792f,-0.99879694f,-0.998641729f,-0.998477101f,-0.998303056f,-0.998119593f,-0.997926772f,-0.997724593f,-0.997512937f,
-0.997291982f,-0.997061551f,-0.996821821f,-0.996572673f,-0.996314108f,-0.996046185f,-0.995768905f,-0.995482266f,-0.99518621f,-0.994880855f,-0.994566083f,-0.994241953f,
-0.993908465f,-0.993565619f,-0.993213475f,-0.992851913f,-0.992481053f,-0.992100835f,-0.991711259f,-0.991312385f,-0.990904152f,-0.990486562f,-0.990059733f,-0.989623547f,
-0.989178002f,-0.988723218f,-0.988259077f,-0.987785637f,-0.987302899f,-0.986810923f,-0.986309588f,-0.985799015f,-0.985279143f,-0.984749973f,-0.984211564f,-0.983663917f,
-0.983106971f,-0.982540786f,-0.981965363f,-0.981380701f,-0.9807868f,-0.980183661f,-0.979571283f,-0.978949666f,-0.97831887f,-0.977678835f,-0.977029622f,-0.976371229f,
-0.975703657f,-0.975026846f,-0.974340856f,-0.973645747f,-0.972941458f,-0.972227991f,-0.971505404f,-0.970773637f,-0.970032752f,-0.969282746f,-0.968523622f,-0.967755318f,
-0.966977954f,-0.96619153f,-0.965395927f,-0.964591265f,-0.963777542f,-0.96295476f,-0.962122917f,-0.961282015f,-0.960431993f,-0.95957303f,-0.958704948f,-0.957827926f,
-0.956941843f,-0.95604676f,-0.955142677f,-0.954229593f,-0.953307569f,-0.952376485f,-0.95143652f,-0.950487554f,-0.949529707f,-0.94856286f,-0.947587073f,-0.946602404f,
-0.945608854f,-0.944606364f,-0.943594933f,-0.94257468f,-0.941545546f,-0.940507591f,-0.939460695f,-0.938405037f,-0.937340498f,-0.936267138f,-0.935185015f,-0.934094071f,
-0.932994306f,-0.931885779f,-0.93076849f,-0.929642379f,-0.928507566f,-0.927364051f,-0.926211715f,-0.925050735f,-0.923881054f,-0.92270261f,-0.921515524f,-0.920319796f,
-0.919115365f,-0.917902291f,-0.916680574f,-0.915450215f,-0.914211273f,-0.912963688f,-0.91170752f,-0.91044277f,-0.909169495f,-0.907887638f,-0.906597197f,-0.905298233f,
-0.903990805f,-0.902674794f,-0.901350319f,-0.900017381f,-0.898675978f,-0.897326052f,-0.895967722f,-0.894600987f,-0.893225789f,-0.891842186f,-0.890450239f,-0.889049828f,
-0.887641132f,-0.886224031f,-0.884798586f,-0.883364856f,-0.881922781f,-0.880472362f,-0.879013717f,-0.877546787f,-0.876071572f,-0.874588132f,-0.873096466f,-0.871596575f,
-0.870088518f,-0.868572235f,-0.867047727f,-0.865515113f,-0.863974333f,-0.862425447f,-0.860868454f,-0.859303296f,-0.857730091f,-0.856148839f,-0.854559481f,-0.852962077f,
-0.851356685f,-0.849743247f,-0.848121822f,-0.84649241f,-0.84485507f,-0.843209743f,-0.841556489f,-0.839895308f,-0.838226199f,-0.836549222f,-0.834864378f,-0.833171666f,
-0.831471086f,-0.829762757f,-0.82804656f,-0.826322556f,-0.824590802f,-0.8228513f,-0.82110399f,-0.819348991f,-0.817586303f,-0.815815926f,-0.814037859f,-0.812252104f,
-0.81045872f,-0.808657706f,-0.806849062f,-0.805032849f,-0.803209007f,-0.801377654f,-0.799538791f,-0.797692358f,-0.795838416f,-0.793976963f,-0.792108059f,-0.790231705f,
-0.7883479f,-0.786456704f,-0.784558117f,-0.78265208f,-0.780738711f,-0.778818011f,-0.77688998f,-0.774954617f,-0.773011982f,-0.771062016f,-0.769104838f,-0.767140388f,
-0.765168786f,-0.763189912f,-0.761203885f,-0.759210706f,-0.757210374f,-0.755202889f,-0.753188312f,-0.751166642f,-0.749137878f,-0.747102082f,-0.745059311f,-0.743009448f,
-0.740952611f,-0.7388888f,-0.736818075f,-0.734740376f,-0.732655764f,-0.730564296f,-0.728465915f,-0.726360679f,-0.724248588f,-0.722129703f,-0.720004022f,-0.717871547f,
-0.715732336f,-0.71358639f,-0.711433709f,-0.709274352f,-0.707108259f,-0.704935551f,-0.702756226f,-0.700570285f,-0.698377728f,-0.696178615f,-0.693972945f,-0.691760778f,
-0.689542055f,-0.687316835f,-0.685085177f,-0.682847023f,-0.680602491f,-0.678351521f,-0.676094174f,-0.673830509f,-0.671560466f,-0.669284105f,-0.667001426f,-0.664712489f,
-0.662417293f,-0.660115838f,-0.657808185f,-0.655494332f,-0.653174341f,-0.65084821f,-0.64851588f,-0.64617753f,-0.643833041f,-0.641482532f,-0.639125943f,-0.636763334f,
-0.634394765f,-0.632020235f,-0.629639745f,-0.627253294f,-0.624861002f,-0.622462809f,-0.620058715f,-0.61764878f,-0.615233064f,-0.612811565f,-0.610384285f,-0.607951283f,
-0.605512559f,-0.603068113f,-0.600618005f,-0.598162234f,-0.5957008f,-0.593233824f,-0.590761185f,-0.588283062f,-0.585799336f,-0.583310127f,-0.580815434f,-0.578315318f,
-0.575809717f,-0.573298693f,-0.570782244f,-0.568260431f,-0.565733314f,-0.563200831f,-0.560663104f,-0.558120012f,-0.555571735f,-0.553018212f,-0.550459445f,-0.547895551f,
-0.545326471f,-0.542752266f,-0.540172994f,-0.537588596f,-0.534999132f,-0.532404602f,-0.529805124f,-0.527200639f,-0.524591208f,-0.521976769f,-0.519357502f,-0.516733289f,
-0.514104247f,-0.511470377f,-0.50883162f,-0.506188154f,-0.50353986f,-0.500886858f,-0.498229176f,-0.495566756f,-0.492899686f,-0.490227997f,-0.487551659f,-0.484870762f,
-0.482185274f,-0.479495257f,-0.47680074f,-0.474101722f,-0.471398234f,-0.468690336f,-0.465977997f,-0.463261276f,-0.460540205f,-0.457814813f,-0.455085099f,-0.452351093f,
-0.449612826f,-0.446870327f,-0.444123656f,-0.441372782f,-0.438617736f,-0.435858577f,-0.433095306f,-0.430327982f,-0.427556604f,-0.424781173f,-0.422001779f,-0.419218391f,
-0.416431069f,-0.413639814f,-0.410844684f,-0.40804565f,-0.405242801f,-0.402436137f,-0.399625689f,-0.396811485f,-0.393993527f,-0.391171873f,-0.388346553f,-0.385517567f,
-0.382684946f,-0.379848719f,-0.377008915f,-0.374165565f,-0.371318698f,-0.368468344f,-0.365614504f,-0.362757236f,-0.359896541f,-0.357032448f,-0.354165018f,-0.351294249f,
-0.348420173f,-0.345542818f,-0.342662215f,-0.339778394f,-0.336891353f,-0.334001154f,-0.331107795f,-0.328211337f,-0.32531178f,-0.322409183f,-0.319503516f,-0.316594869f,
-0.313683242f,-0.310768664f,-0.307851136f,-0.304930717f,-0.302007437f,-0.299081326f,-0.296152383f,-0.293220669f,-0.290286183f,-0.287348956f,-0.284409046f,-0.281466424f,
-0.27852118f,-0.275573313f,-0.272622854f,-0.269669831f,-0.266714245f,-0.263756186f,-0.260795623f,-0.257832617f,-0.254867166f,-0.251899332f,-0.248929113f,-0.245956555f,
-0.242981687f,-0.240004525f,-0.237025112f,-0.234043464f,-0.231059611f,-0.228073582f,-0.225085407f,-0.222095117f,-0.21910274f,-0.216108292f,-0.213111818f,-0.210113332f,
-0.207112879f,-0.204110473f,-0.201106131f,-0.198099911f,-0.195091829f,-0.192081898f,-0.189070165f,-0.186056659f,-0.183041394f,-0.1800244f,-0.177005723f,-0.173985377f,
-0.170963392f,-0.167939797f,-0.164914623f,-0.161887899f,-0.15885964f,-0.155829892f,-0.152798682f,-0.149766028f,-0.146731973f,-0.143696532f,-0.140659735f,-0.137621626f,
-0.134582207f,-0.131541535f,-0.128499612f,-0.125456482f,-0.122412175f,-0.119366713f,-0.116320133f,-0.113272451f,-0.110223711f,-0.107173927f,-0.10412313f,-0.101071365f,
-0.0980186388f,-0.094964996f,-0.0919104591f,-0.0888550505f,-0.0857988149f,-0.0827417672f,-0.0796839371f,-0.076625362f,-0.0735660642f,-0.0705060735f,-0.0674454197f,-0.0643841326f,
-0.0613222346f,-0.0582597628f,-0.0551967435f,-0.0521332063f,-0.0490691736f,-0.0460046828f,-0.0429397561f,-0.039874427f,-0.0368087217f,-0.0337426737f,-0.0306763034f,-0.0276096463f,
-0.0245427284f,-0.0214755796f,-0.0184082296f,-0.0153407063f,-0.0122730387f,-0.00920525473f,-0.00613738457f,-0.00306945667f};
static const float t_sin_hi[2048] = {
1.50000005e-06f,0.00306945667f,0.00613738457f,0.00920525473f,0.0122730387f,0.0153407063f,0.0184082296f,0.0214755796f,0.0245427284f,0.0276096463f,0.0306763034f,0.0337426737f,
0.0368087217f,0.039874427f,0.0429397561f,0.0460046828f,0.0490691736f,0.0521332063f,0.0551967435f,0.0582597628f,0.0613222346f,0.0643841326f,0.0674454197f,0.0705060735f,
0.0735660642f,0.076625362f,0.0796839371f,0.0827417672f,0.0857988149f,0.0888550505f,0.0919104591f,0.094964996f,0.0980186388f,0.101071365f,0.10412313f,0.107173927f,
0.110223711f,0.113272451f,0.116320133f,0.119366713f,0.122412175f,0.125456482f,0.128499612f,0.131541535f,0.134582207f,0.137621626f,0.140659735f,0.143696532f,
0.146731973f,0.149766028f,0.152798682f,0.155829892f,0.15885964f,0.161887899f,0.164914623f,0.167939797f,0.170963392f,0.173985377f,0.177005723f,0.1800244f,
0.183041394f,0.186056659f,0.189070165f,0.192081898f,0.195091829f,0.198099911f,0.201106131f,0.204110473f,0.207112879f,0.210113332f,0.213111818f,0.216108292f,
0.21910274f,0.222095117f,0.225085407f,0.228073582f,0.231059611f,0.234043464f,0.237025112f,0.240004525f,0.242981687f,0.245956555f,0.248929113f,0.251899332f,
0.254867166f,0.257832617f,0.260795623f,0.263756186f,0.266714245f,0.269669831f,0.272622854f,0.275573313f,0.27852118f,0.281466424f,0.284409046f,0.287348956f,
0.290286183f,0.293220669f,0.296152383f,0.299081326f,0.302007437f,0.304930717f,0.307851136f,0.310768664f,0.313683242f,0.316594869f,0.319503516f,0.322409183f,
0.32531178f,0.328211337f,0.331107795f,0.334001154f,0.336891353f,0.339778394f,0.342662215f,0.345542818f,0.348420173f,0.351294249f,0.354165018f,0.357032448f,
0.359896541f,0.362757236f,0.365614504f,0.368468344f,0.371318698f,0.374165565f,0.377008915f,0.379848719f,0.382684946f,0.385517567f,0.388346553f,0.391171873f,
0.393993527f,0.396811485f,0.399625689f,0.402436137f,0.405242801f,0.40804565f,0.410844684f,0.413639814f,0.416431069f,0.419218391f,0.422001779f,0.424781173f,
0.427556604f,0.430327982f,0.433095306f,0.435858577f,0.438617736f,0.441372782f,0.444123656f,0.446870327f,0.449612826f,0.452351093f,0.455085099f,0.457814813f,
0.460540205f,0.463261276f,0.465977997f,0.468690336f,0.471398234f,0.474101722f,0.47680074f,0.479495257f,0.482185274f,0.484870762f,0.487551659f,0.490227997f,
0.492899686f,0.495566756f,0.498229176f,0.500886858f,0.50353986f,0.506188154f,0.50883162f,0.511470377f,0.514104247f,0.516733289f,0.519357502f,0.521976769f,
0.524591208f,0.527200639f,0.529805124f,0.532404602f,0.534999132f,0.537588596f,0.540172994f,0.542752266f,0.545326471f,0.547895551f,0.550459445f,0.553018212f,
0.555571735f,0.558120012f,0.560663104f,0.563200831f,0.565733314f,0.568260431f,0.570782244f,0.573298693f,0.575809717f,0.578315318f,0.580815434f,0.583310127f,
0.585799336f,0.588283062f,0.590761185f,0.593233824f,0.5957008f,0.598162234f,0.600618005f,0.603068113f,0.605512559f,0.607951283f,0.610384285f,0.612811565f,
0.615233064f,0.61764878f,0.620058715f,0.622462809f,0.624861002f,0.627253294f,0.629639745f,0.632020235f,0.634394765f,0.636763334f,0.639125943f,0.641482532f,
0.643833041f,0.64617753f,0.64851588f,0.65084821f,0.653174341f,0.655494332f,0.657808185f,0.660115838f,0.662417293f,0.664712489f,0.667001426f,0.669284105f,
0.671560466f,0.673830509f,0.676094174f,0.678351521f,0.680602491f,0.682847023f,0.685085177f,0.687316835f,0.689542055f,0.691760778f,0.693972945f,0.696178615f,
0.698377728f,0.700570285f,0.702756226f,0.704935551f,0.707108259f,0.709274352f,0.711433709f,0.71358639f,0.715732336f,0.717871547f,0.720004022f,0.722129703f,
0.724248588f,0.726360679f,0.728465915f,0.730564296f,0.732655764f,0.734740376f,0.736818075f,0.7388888f,0.740952611f,0.743009448f,0.745059311f,0.747102082f,
0.749137878f,0.751166642f,0.753188312f,0.755202889f,0.757210374f,0.759210706f,0.761203885f,0.763189912f,0.765168786f,0.767140388f,0.769104838f,0.771062016f,
0.773011982f,0.774954617f,0.77688998f,0.778818011f,0.780738711f,0.78265208f,0.784558117f,0.786456704f,0.7883479f,0.790231705f,0.792108059f,0.793976963f,
0.795838416f,0.797692358f,0.799538791f,0.801377654f,0.803209007f,0.805032849f,0.806849062f,0.808657706f,0.81045872f,0.812252104f,0.814037859f,0.815815926f,
0.817586303f,0.819348991f,0.82110399f,0.8228513f,0.824590802f,0.826322556f,0.82804656f,0.829762757f,0.831471086f,0.833171666f,0.834864378f,0.836549222f,
0.838226199f,0.839895308f,0.841556489f,0.843209743f,0.84485507f,0.84649241f,0.848121822f,0.849743247f,0.851356685f,0.852962077f,0.854559481f,0.856148839f,
0.857730091f,0.859303296f,0.860868454f,0.862425447f,0.863974333f,0.865515113f,0.867047727f,0.868572235f,0.870088518f,0.871596575f,0.873096466f,0.874588132f,
0.876071572f,0.877546787f,0.879013717f,0.880472362f,0.881922781f,0.883364856f,0.884798586f,0.886224031f,0.887641132f,0.889049828f,0.890450239f,0.891842186f,
0.893225789f,0.894600987f,0.895967722f,0.897326052f,0.898675978f,0.900017381f,0.901350319f,0.902674794f,0.903990805f,0.905298233f,0.906597197f,0.907887638f,
0.909169495f,0.91044277f,0.91170752f,0.912963688f,0.914211273f,0.915450215f,0.916680574f,0.917902291f,0.919115365f,0.920319796f,0.921515524f,0.92270261f,
0.923881054f,0.925050735f,0.926211715f,0.927364051f,0.928507566f,0.929642379f,0.93076849f,0.931885779f,0.932994306f,0.934094071f,0.935185015f,0.936267138f,
0.937340498f,0.938405037f,0.939460695f,0.940507591f,0.941545546f,0.94257468f,0.943594933f,0.944606364f,0.945608854f,0.946602404f,0.947587073f,0.94856286f,
0.949529707f,0.950487554f,0.95143652f,0.952376485f,0.953307569f,0.954229593f,0.955142677f,0.95604676f,0.956941843f,0.957827926f,0.958704948f,0.95957303f,
0.960431993f,0.961282015f,0.962122917f,0.96295476f,0.963777542f,0.964591265f,0.965395927f,0.96619153f,0.966977954f,0.967755318f,0.968523622f,0.969282746f,
0.970032752f,0.970773637f,0.971505404f,0.972227991f,0.972941458f,0.973645747f,0.974340856f,0.975026846f,0.975703657f,0.976371229f,0.977029622f,0.977678835f,
0.97831887f,0.978949666f,0.979571283f,0.980183661f,0.9807868f,0.981380701f,0.981965363f,0.982540786f,0.983106971f,0.983663917f,0.984211564f,0.984749973f,
0.985279143f,0.985799015f,0.986309588f,0.986810923f,0.987302899f,0.987785637f,0.988259077f,0.988723218f,0.989178002f,0.989623547f,0.990059733f,0.990486562f,
0.990904152f,0.991312385f,0.991711259f,0.992100835f,0.992481053f,0.992851913f,0.993213475f,0.993565619f,0.993908465f,0.994241953f,0.994566083f,0.994880855f,
0.99518621f,0.995482266f,0.995768905f,0.996046185f,0.996314108f,0.996572673f,0.996821821f,0.997061551f,0.997291982f,0.997512937f,0.997724593f,0.997926772f,
0.998119593f,0.998303056f,0.998477101f,0.998641729f,0.99879694f,0.998942792f,0.999079227f,0.999206245f,0.999323905f,0.999432087f,0.999530911f,0.999620318f,
0.999700308f,0.99977088f,0.999832094f,0.999883831f,0.999926209f,0.999959171f,0.999982655f,0.999996781f,1.00000155f,0.999996781f,0.999982655f,0.999959171f,
0.999926209f,0.999883831f,0.999832094f,0.99977088f,0.999700308f,0.999620318f,0.999530911f,0.999432087f,0.999323905f,0.999206245f,0.999079227f,0.998942792f,
0.99879694f,0.998641729f,0.998477101f,0.998303056f,0.998119593f,0.997926772f,0.997724593f,0.997512937f,0.997291982f,0.997061551f,0.996821821f,0.996572673f,
0.996314108f,0.996046185f,0.995768905f,0.995482266f,0.99518621f,0.994880855f,0.994566083f,0.994241953f,0.993908465f,0.993565619f,0.993213475f,0.992851913f,
0.992481053f,0.992100835f,0.991711259f,0.991312385f,0.990904152f,0.990486562f,0.990059733f,0.989623547f,0.989178002f,0.988723218f,0.988259077f,0.987785637f,
0.987302899f,0.986810923f,0.986309588f,0.985799015f,0.985279143f,0.984749973f,0.984211564f,0.983663917f,0.983106971f,0.982540786f,0.981965363f,0.981380701f,
0.9807868f,0.980183661f,0.979571283f,0.978949666f,0.97831887f,0.977678835f,0.977029622f,0.976371229f,0.975703657f,0.975026846f,0.974340856f,0.973645747f,
0.972941458f,0.972227991f,0.971505404f,0.970773637f,0.970032752f,0.969282746f,0.968523622f,0.967755318f,0.966977954f,0.96619153f,0.965395927f,0.964591265f,
0.963777542f,0.96295476f,0.962122917f,0.961282015f,0.960431993f,0.95957303f,0.958704948f,0.957827926f,0.956941843f,0.95604676f,0.955142677f,0.954229593f,
0.953307569f,0.952376485f,0.95143652f,0.950487554f,0.949529707f,0.94856286f,0.947587073f,0.946602404f,0.945608854f,0.944606364f,0.943594933f,0.94257468f,
0.941545546f,0.940507591f,0.939460695f,0.938405037f,0.937340498f,0.936267138f,0.935185015f,0.934094071f,0.932994306f,0.931885779f,0.93076849f,0.929642379f,
0.928507566f,0.927364051f,0.926211715f,0.925050735f,0.923881054f,0.92270261f,0.921515524f,0.920319796f,0.919115365f,0.917902291f,0.916680574f,0.915450215f,
0.914211273f,0.912963688f,0.91170752f,0.91044277f,0.909169495f,0.907887638f,0.906597197f,0.905298233f,0.903990805f,0.902674794f,0.901350319f,0.900017381f,
0.898675978f,0.897326052f,0.895967722f,0.894600987f,0.893225789f,0.891842186f,0.890450239f,0.889049828f,0.887641132f,0.886224031f,0.884798586f,0.883364856f,
0.881922781f,0.880472362f,0.879013717f,0.877546787f,0.876071572f,0.874588132f,0.873096466f,0.871596575f,0.870088518f,0.868572235f,0.867047727f,0.865515113f,
0.863974333f,0.862425447f,0.860868454f,0.859303296f,0.857730091f,0.856148839f,0.854559481f,0.852962077f,0.851356685f,0.849743247f,0.848121822f,0.84649241f,
0.84485507f,0.843209743f,0.841556489f,0.839895308f,0.838226199f,0.836549222f,0.834864378f,0.833171666f,0.831471086f,0.829762757f,0.82804656f,0.826322556f,
0.824590802f,0.8228513f,0.82110399f,0.819348991f,0.817586303f,0.815815926f,0.814037859f,0.812252104f,0.81045872f,0.808657706f,0.806849062f,0.805032849f,
0.803209007f,0.801377654f,0.799538791f,0.797692358f,0.795838416f,0.793976963f,0.792108059f,0.790231705f,0.7883479f,0.786456704f,0.784558117f,0.78265208f,
0.780738711f,0.778818011f,0.77688998f,0.774954617f,0.773011982f,0.771062016f,0.769104838f,0.767140388f,0.765168786f,0.763189912f,0.761203885f,0.759210706f,
0.757210374f,0.755202889f,0.753188312f,0.751166642f,0.749137878f,0.747102082f,0.745059311f,0.743009448f,0.740952611f,0.7388888f,0.736818075f,0.734740376f,
0.732655764f,0.730564296f,0.728465915f,0.726360679f,0.724248588f,0.722129703f,0.720004022f,0.717871547f,0.715732336f,0.71358639f,0.711433709f,0.709274352f,
0.707108259f,0.704935551f,0.702756226f,0.700570285f,0.698377728f,0.696178615f,0.693972945f,0.691760778f,0.689542055f,0.687316835f,0.685085177f,0.682847023f,
0.680602491f,0.678351521f,0.676094174f,0.673830509f,0.671560466f,0.669284105f,0.667001426f,0.664712489f,0.662417293f,0.660115838f,0.657808185f,0.655494332f,
0.653174341f,0.65084821f,0.64851588f,0.64617753f,0.643833041f,0.641482532f,0.639125943f,0.636763334f,0.634394765f,0.632020235f,0.629639745f,0.627253294f,
0.624861002f,0.622462809f,0.620058715f,0.61764878f,0.615233064f,0.612811565f,0.610384285f,0.607951283f,0.605512559f,0.603068113f,0.600618005f,0.598162234f,
0.5957008f,0.593233824f,0.590761185f,0.588283062f,0.585799336f,0.583310127f,0.580815434f,0.578315318f,0.575809717f,0.573298693f,0.570782244f,0.568260431f,
0.565733314f,0.563200831f,0.560663104f,0.558120012f,0.555571735f,0.553018212f,0.550459445f,0.547895551f,0.545326471f,0.542752266f,0.540172994f,0.537588596f,
0.534999132f,0.532404602f,0.529805124f,0.527200639f,0.524591208f,0.521976769f,0.519357502f,0.516733289f,0.514104247f,0.511470377f,0.50883162f,0.506188154f,
0.50353986f,0.500886858f,0.498229176f,0.495566756f,0.492899686f,0.490227997f,0.487551659f,0.484870762f,0.482185274f,0.479495257f,0.47680074f,0.474101722f,
0.471398234f,0.468690336f,0.465977997f,0.463261276f,0.460540205f,0.457814813f,0.455085099f,0.452351093f,0.449612826f,0.446870327f,0.444123656f,0.441372782f,
0.438617736f,0.435858577f,0.433095306f,0.430327982f,0.427556604f,0.424781173f,0.422001779f,0.419218391f,0.416431069f,0.413639814f,0.410844684f,0.40804565f,
0.405242801f,0.402436137f,0.399625689f,0.396811485f,0.393993527f,0.391171873f,0.388346553f,0.385517567f,0.382684946f,0.379848719f,0.377008915f,0.374165565f,
0.371318698f,0.368468344f,0.365614504f,0.362757236f,0.359896541f,0.357032448f,0.354165018f,0.351294249f,0.348420173f,0.345542818f,0.342662215f,0.339778394f,
0.336891353f,0.334001154f,0.331107795f,0.328211337f,0.32531178f,0.322409183f,0.319503516f,0.316594869f,0.313683242f,0.310768664f,0.307851136f,0.304930717f,
0.302007437f,0.299081326f,0.296152383f,0.293220669f,0.290286183f,0.287348956f,0.284409046f,0.281466424f,0.27852118f,0.275573313f,0.272622854f,0.269669831f,
0.266714245f,0.263756186f,0.260795623f,0.257832617f,0.254867166f,0.251899332f,0.248929113f,0.245956555f,0.242981687f,0.240004525f,0.237025112f,0.234043464f,
0.231059611f,0.228073582f,0.225085407f,0.222095117f,0.21910274f,0.216108292f,0.213111818f,0.210113332f,0.207112879f,0.204110473f,0.201106131f,0.198099911f,
0.195091829f,0.192081898f,0.189070165f,0.186056659f,0.183041394f,0.1800244f,0.177005723f,0.173985377f,0.170963392f,0.167939797f,0.164914623f,0.161887899f,
0.15885964f,0.155829892f,0.152798682f,0.149766028f,0.146731973f,0.143696532f,0.140659735f,0.137621626f,0.134582207f,0.131541535f,0.128499612f,0.125456482f,
0.122412175f,0.119366713f,0.116320133f,0.113272451f,0.110223711f,0.107173927f,0.10412313f,0.101071365f,0.0980186388f,0.094964996f,0.0919104591f,0.0888550505f,
0.0857988149f,0.0827417672f,0.0796839371f,0.076625362f,0.0735660642f,0.0705060735f,0.0674454197f,0.0643841326f,0.0613222346f,0.0582597628f,0.0551967435f,0.0521332063f,
0.0490691736f,0.0460046828f,0.0429397561f,0.039874427f,0.0368087217f,0.0337426737f,0.0306763034f,0.0276096463f,0.0245427284f,0.0214755796f,0.0184082296f,0.0153407063f,
0.0122730387f,0.00920525473f,0.00613738457f,0.00306945667f,1.50000005e-06f,-0.00306645688f,-0.00613438478f,-0.00920225494f,-0.012270038f,-0.0153377065f,-0.0184052307f,-0.0214725807f,
-0.0245397277f,-0.0276066456f,-0.0306733027f,-0.0337396711f,-0.0368057229f,-0.0398714282f,-0.0429367572f,-0.0460016839f,-0.0490661748f,-0.0521302037f,-0.0551937446f,-0.058256764f,
-0.0613192357f,-0.06438113f,-0.0674424171f,-0.070503071f,-0.0735630617f,-0.0766223595f,-0.0796809345f,-0.0827387646f,-0.0857958123f,-0.0888520554f,-0.0919074565f,-0.0949619934f,
-0.0980156437f,-0.101068363f,-0.104120135f,-0.107170925f,-0.110220708f,-0.113269456f,-0.116317131f,-0.119363718f,-0.122409172f,-0.125453487f,-0.128496617f,-0.131538525f,
-0.134579211f,-0.137618616f,-0.140656739f,-0.143693537f,-0.146728978f,-0.149763033f,-0.152795687f,-0.155826896f,-0.158856645f,-0.161884889f,-0.164911628f,-0.167936802f,
-0.170960382f,-0.173982367f,-0.177002713f,-0.180021405f,-0.183038384f,-0.186053649f,-0.18906717f,-0.192078903f,-0.195088819f,-0.198096916f,-0.201103136f,-0.204107463f,
-0.207109883f,-0.210110337f,-0.213108823f,-0.216105297f,-0.219099745f,-0.222092122f,-0.225082412f,-0.228070587f,-0.231056616f,-0.234040454f,-0.237022102f,-0.240001529f,
-0.242978677f,-0.245953545f,-0.248926103f,-0.251896322f,-0.254864156f,-0.257829607f,-0.260792613f,-0.263753176f,-0.266711265f,-0.269666821f,-0.272619843f,-0.275570333f,
-0.2785182f,-0.281463444f,-0.284406036f,-0.287345946f,-0.290283173f,-0.293217659f,-0.296149403f,-0.299078315f,-0.302004457f,-0.304927737f,-0.307848126f,-0.310765654f,
-0.313680232f,-0.316591889f,-0.319500536f,-0.322406173f,-0.3253088f,-0.328208357f,-0.331104815f,-0.333998144f,-0.336888343f,-0.339775383f,-0.342659205f,-0.345539838f,
-0.348417193f,-0.351291269f,-0.354162037f,-0.357029468f,-0.359893531f,-0.362754226f,-0.365611494f,-0.368465334f,-0.371315688f,-0.374162555f,-0.377005905f,-0.379845709f,
-0.382681936f,-0.385514557f,-0.388343543f,-0.391168892f,-0.393990546f,-0.396808475f,-0.399622709f,-0.402433157f,-0.40523982f,-0.408042669f,-0.410841674f,-0.413636804f,
-0.416428059f,-0.419215381f,-0.421998769f,-0.424778193f,-0.427553594f,-0.430324972f,-0.433092326f,-0.435855567f,-0.438614726f,-0.441369772f,-0.444120646f,-0.446867347f,
-0.449609816f,-0.452348083f,-0.455082089f,-0.457811803f,-0.460537225f,-0.463258296f,-0.465974987f,-0.468687326f,-0.471395224f,-0.474098712f,-0.47679773f,-0.479492247f,
-0.482182264f,-0.484867752f,-0.487548649f,-0.490224987f,-0.492896706f,-0.495563775f,-0.498226166f,-0.500883877f,-0.50353688f,-0.506185174f,-0.50882864f,-0.511467338f,
-0.514101267f,-0.516730309f,-0.519354463f,-0.521973789f,-0.524588168f,-0.527197659f,-0.529802144f,-0.532401621f,-0.534996092f,-0.537585557f,-0.540169954f,-0.542749286f,
-0.545323491f,-0.54789257f,-0.550456464f,-0.553015232f,-0.555568755f,-0.558117032f,-0.560660064f,-0.563197851f,-0.565730333f,-0.568257451f,-0.570779264f,-0.573295653f,
-0.575806677f,-0.578312278f,-0.580812454f,-0.583307147f,-0.585796356f,-0.588280022f,-0.590758204f,-0.593230784f,-0.59569782f,-0.598159194f,-0.600614965f,-0.603065073f,
-0.60550952f,-0.607948303f,-0.610381305f,-0.612808585f,-0.615230083f,-0.6176458f,-0.620055735f,-0.622459769f,-0.624857962f,-0.627250314f,-0.629636765f,-0.632017255f,
-0.634391785f,-0.636760354f,-0.639122963f,-0.641479492f,-0.643830061f,-0.64617449f,-0.6485129f,-0.65084517f,-0.65317136f,-0.655491352f,-0.657805204f,-0.660112858f,
-0.662414253f,-0.664709449f,-0.666998446f,-0.669281065f,-0.671557426f,-0.673827529f,-0.676091194f,-0.678348541f,-0.680599511f,-0.682844043f,-0.685082197f,-0.687313855f,
-0.689539015f,-0.691757739f,-0.693969965f,-0.696175635f,-0.698374748f,-0.700567305f,-0.702753246f,-0.70493257f,-0.707105279f,-0.709271312f,-0.711430669f,-0.71358335f,
-0.715729296f,-0.717868567f,-0.720000982f,-0.722126722f,-0.724245608f,-0.726357639f,-0.728462875f,-0.730561256f,-0.732652783f,-0.734737396f,-0.736815095f,-0.73888582f,
-0.740949631f,-0.743006468f,-0.745056272f,-0.747099102f,-0.749134898f,-0.751163661f,-0.753185272f,-0.75519985f,-0.757207334f,-0.759207666f,-0.761200905f,-0.763186932f,
-0.765165746f,-0.767137408f,-0.769101858f,-0.771059036f,-0.773008943f,-0.774951577f,-0.77688694f,-0.778815031f,-0.780735731f,-0.7826491f,-0.784555078f,-0.786453724f,
-0.78834492f,-0.790228724f,-0.792105079f,-0.793973982f,-0.795835376f,-0.797689319f,-0.799535751f,-0.801374674f,-0.803206027f,-0.805029809f,-0.806846082f,-0.808654666f,
-0.81045568f,-0.812249064f,-0.81403482f,-0.815812886f,-0.817583323f,-0.819346011f,-0.82110101f,-0.82284826f,-0.824587822f,-0.826319575f,-0.82804352f,-0.829759717f,
-0.831468105f,-0.833168685f,-0.834861398f,-0.836546242f,-0.838223219f,-0.839892268f,-0.84155345f,-0.843206763f,-0.84485209f,-0.846489429f,-0.848118842f,-0.849740267f,
-0.851353705f,-0.852959096f,-0.854556501f,-0.856145799f,-0.85772711f,-0.859300315f,-0.860865414f,-0.862422466f,-0.863971353f,-0.865512133f,-0.867044747f,-0.868569195f,
-0.870085478f,-0.871593595f,-0.873093486f,-0.874585152f,-0.876068592f,-0.877543807f,-0.879010737f,-0.880469382f,-0.881919742f,-0.883361816f,-0.884795606f,-0.886221051f,
-0.887638092f,-0.889046848f,-0.890447199f,-0.891839206f,-0.893222809f,-0.894598007f,-0.895964742f,-0.897323072f,-0.898672938f,-0.9000144f,-0.901347339f,-0.902671814f,
-0.903987765f,-0.905295253f,-0.906594217f,-0.907884598f,-0.909166455f,-0.910439789f,-0.91170454f,-0.912960708f,-0.914208233f,-0.915447235f,-0.916677535f,-0.917899251f,
-0.919112325f,-0.920316756f,-0.921512544f,-0.92269963f,-0.923878014f,-0.925047755f,-0.926208735f,-0.927361012f,-0.928504586f,-0.929639399f,-0.93076545f,-0.931882739f,
-0.932991326f,-0.934091032f,-0.935182035f,-0.936264157f,-0.937337518f,-0.938402057f,-0.939457715f,-0.940504551f,-0.941542566f,-0.9425717f,-0.943591952f,-0.944603324f,
-0.945605814f,-0.946599424f,-0.947584093f,-0.948559821f,-0.949526668f,-0.950484574f,-0.951433539f,-0.952373505f,-0.953304529f,-0.954226613f,-0.955139697f,-0.95604378f,
-0.956938863f,-0.957824886f,-0.958701968f,-0.959569991f,-0.960429013f,-0.961278975f,-0.962119877f,-0.962951779f,-0.963774562f,-0.964588284f,-0.965392947f,-0.96618849f,
-0.966974974f,-0.967752337f,-0.968520582f,-0.969279706f,-0.970029771f,-0.970770657f,-0.971502364f,-0.97222501f,-0.972938478f,-0.973642766f,-0.974337876f,-0.975023866f,
-0.975700617f,-0.976368248f,-0.977026641f,-0.977675855f,-0.97831589f,-0.978946686f,-0.979568243f,-0.980180621f,-0.980783761f,-0.981377721f,-0.981962383f,-0.982537806f,
-0.983103991f,-0.983660936f,-0.984208584f,-0.984746993f,-0.985276163f,-0.985796034f,-0.986306608f,-0.986807883f,-0.987299919f,-0.987782657f,-0.988256097f,-0.988720179f,
-0.989175022f,-0.989620507f,-0.990056694f,-0.990483582f,-0.990901113f,-0.991309345f,-0.991708279f,-0.992097795f,-0.992478013f,-0.992848933f,-0.993210435f,-0.993562639f,
-0.993905485f,-0.994238973f,-0.994563043f,-0.994877815f,-0.995183229f,-0.995479226f,-0.995765924f,-0.996043205f,-0.996311128f,-0.996569633f,-0.996818781f,-0.99705857f,
-0.997288942f,-0.997509956f,-0.997721553f,-0.997923791f,-0.998116612f,-0.998300016f,-0.998474061f,-0.99863869f,-0.99879396f,-0.998939812f,-0.999076247f,-0.999203265f,
-0.999320865f,-0.999429107f,-0.999527931f,-0.999617338f,-0.999697328f,-0.9997679f,-0.999829054f,-0.99988085f,-0.999923229f,-0.999956131f,-0.999979675f,-0.999993801f,
-0.99999851f,-0.999993801f,-0.999979675f,-0.999956131f,-0.999923229f,-0.99988085f,-0.999829054f,-0.9997679f,-0.999697328f,-0.999617338f,-0.999527931f,-0.999429107f,
-0.999320865f,-0.999203265f,-0.999076247f,-0.998939812f,-0.99879396f,-0.99863869f,-0.998474061f,-0.998300016f,-0.998116612f,-0.997923791f,-0.997721553f,-0.997509956f,
-0.997288942f,-0.99705857f,-0.996818781f,-0.996569633f,-0.996311128f,-0.996043205f,-0.995765924f,-0.995479226f,-0.995183229f,-0.994877815f,-0.994563043f,-0.994238973f,
-0.993905485f,-0.993562639f,-0.993210435f,-0.992848933f,-0.992478013f,-0.992097795f,-0.991708279f,-0.991309345f,-0.990901113f,-0.990483582f,-0.990056694f,-0.989620507f,
-0.989175022f,-0.988720179f,-0.988256097f,-0.987782657f,-0.987299919f,-0.986807883f,-0.986306608f,-0.985796034f,-0.985276163f,-0.984746993f,-0.984208584f,-0.983660936f,
-0.983103991f,-0.982537806f,-0.981962383f,-0.981377721f,-0.980783761f,-0.980180621f,-0.979568243f,-0.978946686f,-0.97831589f,-0.977675855f,-0.977026641f,-0.976368248f,
-0.975700617f,-0.975023866f,-0.974337876f,-0.973642766f,-0.972938478f,-0.97222501f,-0.971502364f,-0.970770657f,-0.970029771f,-0.969279706f,-0.968520582f,-0.967752337f,
-0.966974974f,-0.96618849f,-0.965392947f,-0.964588284f,-0.963774562f,-0.962951779f,-0.962119877f,-0.961278975f,-0.960429013f,-0.959569991f,-0.958701968f,-0.957824886f,
-0.956938863f,-0.95604378f,-0.955139697f,-0.954226613f,-0.953304529f,-0.952373505f,-0.951433539f,-0.950484574f,-0.949526668f,-0.948559821f,-0.947584093f,-0.946599424f,
-0.945605814f,-0.944603324f,-0.943591952f,-0.9425717f,-0.941542566f,-0.940504551f,-0.939457715f,-0.938402057f,-0.937337518f,-0.936264157f,-0.935182035f,-0.934091032f,
-0.932991326f,-0.931882739f,-0.93076545f,-0.929639399f,-0.928504586f,-0.927361012f,-0.926208735f,-0.925047755f,-0.923878014f,-0.92269963f,-0.921512544f,-0.920316756f,
-0.919112325f,-0.917899251f,-0.916677535f,-0.915447235f,-0.914208233f,-0.912960708f,-0.91170454f,-0.910439789f,-0.909166455f,-0.907884598f,-0.906594217f,-0.905295253f,
-0.903987765f,-0.902671814f,-0.901347339f,-0.9000144f,-0.898672938f,-0.897323072f,-0.895964742f,-0.894598007f,-0.893222809f,-0.891839206f,-0.890447199f,-0.889046848f,
-0.887638092f,-0.886221051f,-0.884795606f,-0.883361816f,-0.881919742f,-0.880469382f,-0.879010737f,-0.877543807f,-0.876068592f,-0.874585152f,-0.873093486f,-0.871593595f,
-0.870085478f,-0.868569195f,-0.867044747f,-0.865512133f,-0.863971353f,-0.862422466f,-0.860865414f,-0.859300315f,-0.85772711f,-0.856145799f,-0.854556501f,-0.852959096f,
-0.851353705f,-0.849740267f,-0.848118842f,-0.846489429f,-0.84485209f,-0.843206763f,-0.84155345f,-0.839892268f,-0.838223219f,-0.836546242f,-0.834861398f,-0.833168685f,
-0.831468105f,-0.829759717f,-0.82804352f,-0.826319575f,-0.824587822f,-0.82284826f,-0.82110101f,-0.819346011f,-0.817583323f,-0.815812886f,-0.81403482f,-0.812249064f,
-0.81045568f,-0.808654666f,-0.806846082f,-0.805029809f,-0.803206027f,-0.801374674f,-0.799535751f,-0.797689319f,-0.795835376f,-0.793973982f,-0.792105079f,-0.790228724f,
-0.78834492f,-0.786453724f,-0.784555078f,-0.7826491f,-0.780735731f,-0.778815031f,-0.77688694f,-0.774951577f,-0.773008943f,-0.771059036f,-0.769101858f,-0.767137408f,
-0.765165746f,-0.763186932f,-0.761200905f,-0.759207666f,-0.757207334f,-0.75519985f,-0.753185272f,-0.751163661f,-0.749134898f,-0.747099102f,-0.745056272f,-0.743006468f,
-0.740949631f,-0.73888582f,-0.736815095f,-0.734737396f,-0.732652783f,-0.730561256f,-0.728462875f,-0.726357639f,-0.724245608f,-0.722126722f,-0.720000982f,-0.717868567f,
-0.715729296f,-0.71358335f,-0.711430669f,-0.709271312f,-0.707105279f,-0.70493257f,-0.702753246f,-0.700567305f,-0.698374748f,-0.696175635f,-0.693969965f,-0.691757739f,
-0.689539015f,-0.687313855f,-0.685082197f,-0.682844043f,-0.680599511f,-0.678348541f,-0.676091194f,-0.673827529f,-0.671557426f,-0.669281065f,-0.666998446f,-0.664709449f,
-0.662414253f,-0.660112858f,-0.657805204f,-0.655491352f,-0.65317136f,-0.65084517f,-0.6485129f,-0.64617449f,-0.643830061f,-0.641479492f,-0.639122963f,-0.636760354f,
-0.634391785f,-0.632017255f,-0.629636765f,-0.627250314f,-0.624857962f,-0.622459769f,-0.620055735f,-0.6176458f,-0.615230083f,-0.612808585f,-0.610381305f,-0.607948303f,
-0.60550952f,-0.603065073f,-0.600614965f,-0.598159194f,-0.59569782f,-0.593230784f,-0.590758204f,-0.588280022f,-0.585796356f,-0.583307147f,-0.580812454f,-0.578312278f,
-0.575806677f,-0.573295653f,-0.570779264f,-0.568257451f,-0.565730333f,-0.563197851f,-0.560660064f,-0.558117032f,-0.555568755f,-0.553015232f,-0.550456464f,-0.54789257f,
-0.545323491f,-0.542749286f,-0.540169954f,-0.537585557f,-0.534996092f,-0.532401621f,-0.529802144f,-0.527197659f,-0.524588168f,-0.521973789f,-0.519354463f,-0.516730309f,
-0.514101267f,-0.511467338f,-0.50882864f,-0.506185174f,-0.50353688f,-0.500883877f,-0.498226166f,-0.495563775f,-0.492896706f,-0.490224987f,-0.487548649f,-0.484867752f,
-0.482182264f,-0.479492247f,-0.47679773f,-0.474098712f,-0.471395224f,-0.468687326f,-0.465974987f,-0.463258296f,-0.460537225f,-0.457811803f,-0.455082089f,-0.452348083f,
-0.449609816f,-0.446867347f,-0.444120646f,-0.441369772f,-0.438614726f,-0.435855567f,-0.433092326f,-0.430324972f,-0.427553594f,-0.424778193f,-0.421998769f,-0.419215381f,
-0.416428059f,-0.413636804f,-0.410841674f,-0.408042669f,-0.40523982f,-0.402433157f,-0.399622709f,-0.396808475f,-0.393990546f,-0.391168892f,-0.388343543f,-0.385514557f,
-0.382681936f,-0.379845709f,-0.377005905f,-0.374162555f,-0.371315688f,-0.368465334f,-0.365611494f,-0.362754226f,-0.359893531f,-0.357029468f,-0.354162037f,-0.351291269f,
-0.348417193f,-0.345539838f,-0.342659205f,-0.339775383f,-0.336888343f,-0.333998144f,-0.331104815f,-0.328208357f,-0.3253088f,-0.322406173f,-0.319500536f,-0.316591889f,
-0.313680232f,-0.310765654f,-0.307848126f,-0.304927737f,-0.302004457f,-0.299078315f,-0.296149403f,-0.293217659f,-0.290283173f,-0.287345946f,-0.284406036f,-0.281463444f,
-0.2785182f,-0.275570333f,-0.272619843f,-0.269666821f,-0.266711265f,-0.263753176f,-0.260792613f,-0.257829607f,-0.254864156f,-0.251896322f,-0.248926103f,-0.245953545f,
-0.242978677f,-0.240001529f,-0.237022102f,-0.234040454f,-0.231056616f,-0.228070587f,-0.225082412f,-0.222092122f,-0.219099745f,-0.216105297f,-0.213108823f,-0.210110337f,
-0.207109883f,-0.204107463f,-0.201103136f,-0.198096916f,-0.195088819f,-0.192078903f,-0.18906717f,-0.186053649f,-0.183038384f,-0.180021405f,-0.177002713f,-0.173982367f,
-0.170960382f,-0.167936802f,-0.164911628f,-0.161884889f,-0.158856645f,-0.155826896f,-0.152795687f,-0.149763033f,-0.146728978f,-0.143693537f,-0.140656739f,-0.137618616f,
-0.134579211f,-0.131538525f,-0.128496617f,-0.125453487f,-0.122409172f,-0.119363718f,-0.116317131f,-0.113269456f,-0.110220708f,-0.107170925f,-0.104120135f,-0.101068363f,
-0.0980156437f,-0.0949619934f,-0.0919074565f,-0.0888520554f,-0.0857958123f,-0.0827387646f,-0.0796809345f,-0.0766223595f,-0.0735630617f,-0.070503071f,-0.0674424171f,-0.06438113f,
-0.0613192357f,-0.058256764f,-0.0551937446f,-0.0521302037f,-0.0490661748f,-0.0460016839f,-0.0429367572f,-0.0398714282f,-0.0368057229f,-0.0337396711f,-0.0306733027f,-0.0276066456f,
-0.0245397277f,-0.0214725807f,-0.0184052307f,-0.0153377065f,-0.012270038f,-0.00920225494f,-0.00613438478f,-0.00306645688f};
static const float t_tan_lo[2048] = {
-1.99999999e-06f,0.00153198047f,0.00306596817f,0.0045999703f,0.00613399409f,0.00766804675f,0.00920213573f,0.0107362671f,0.0122704497f,0.0138046909f,0.0153389955f,0.0168733727f,
0.018407831f,0.0199423749f,0.021477012f,0.0230117496f,0.0245465972f,0.0260815602f,0.0276166461f,0.0291518606f,0.0306872148f,0.0322227105f,0.0337583609f,0.0352941677f,
0.0368301459f,0.0383662917f,0.03990262f,0.0414391384f,0.0429758504f,0.0445127673f,0.0460498929f,0.0475872345f,0.0491247997f,0.0506625995f,0.0522006378f,0.0537389219f,
0.0552774593f,0.0568162575f,0.058355324f,0.0598946661f,0.0614342913f,0.0629742071f,0.0645144209f,0.0660549402f,0.067595765f,0.0691369176f,0.0706783906f,0.0722202063f,
0.0737623572f,0.0753048584f,0.0768477172f,0.078390941f,0.07993453f,0.0814785063f,0.0830228627f,0.0845676139f,0.0861127675f,0.0876583233f,0.0892043039f,0.0907507017f,
0.0922975317f,0.0938447937f,0.0953925103f,0.0969406739f,0.0984893069f,0.100038402f,0.101587966f,0.103138022f,0.10468857f,0.106239609f,0.107791156f,0.109343216f,
0.110895798f,0.112448908f,0.114002556f,0.115556747f,0.117111489f,0.118666783f,0.12022265f,0.121779092f,0.123336114f,0.124893725f,0.126451924f,0.128010735f,
0.129570171f,0.131130204f,0.132690877f,0.134252191f,0.135814145f,0.137376741f,0.138940006f,0.140503928f,0.142068535f,0.143633813f,0.145199791f,0.146766454f,
0.148333833f,0.149901927f,0.151470736f,0.153040275f,0.154610559f,0.156181574f,0.157753363f,0.159325898f,0.160899192f,0.162473276f,0.16404815f,0.165623814f,
0.167200267f,0.16877754f,0.170355633f,0.171934545f,0.173514277f,0.175094873f,0.176676303f,0.178258598f,0.179841757f,0.181425795f,0.183010697f,0.184596509f,
0.186183214f,0.187770814f,0.189359337f,0.190948784f,0.19253917f,0.19413048f,0.195722759f,0.197315976f,0.198910162f,0.200505331f,0.202101469f,0.203698605f,
0.205296725f,0.206895873f,0.208496019f,0.210097194f,0.211699411f,0.213302657f,0.214906961f,0.216512322f,0.218118742f,0.219726235f,0.22133483f,0.222944498f,
0.224555284f,0.226167172f,0.227780178f,0.229394317f,0.231009588f,0.232625991f,0.234243572f,0.2358623f,0.237482205f,0.239103287f,0.240725562f,0.242349043f,
0.243973717f,0.245599613f,0.247226745f,0.248855099f,0.250484705f,0.252115548f,0.253747672f,0.255381048f,0.257015735f,0.258651674f,0.260288954f,0.261927515f,
0.263567388f,0.265208602f,0.266851127f,0.268495023f,0.27014026f,0.271786869f,0.273434877f,0.275084227f,0.276734978f,0.278387159f,0.280040711f,0.281695694f,
0.283352137f,0.28501001f,0.286669314f,0.288330078f,0.289992332f,0.291656047f,0.293321252f,0.294987977f,0.296656191f,0.298325926f,0.299997211f,0.301670015f,
0.303344369f,0.305020273f,0.306697786f,0.308376849f,0.310057491f,0.311739743f,0.313423604f,0.315109074f,0.316796213f,0.318484962f,0.32017535f,0.321867436f,
0.323561162f,0.325256586f,0.326953679f,0.328652501f,0.330353022f,0.3320553f,0.333759278f,0.335465014f,0.337172508f,0.338881761f,0.340592802f,0.34230563f,
0.344020247f,0.345736682f,0.347454935f,0.349175036f,0.350896955f,0.352620751f,0.354346395f,0.356073946f,0.357803345f,0.359534681f,0.361267895f,0.363003045f,
0.364740133f,0.366479158f,0.36822015f,0.369963109f,0.371708035f,0.373454958f,0.375203878f,0.376954824f,0.378707796f,0.380462795f,0.382219851f,0.383978963f,
0.385740161f,0.387503445f,0.389268816f,0.391036302f,0.392805904f,0.394577652f,0.396351516f,0.398127556f,0.399905771f,0.401686192f,0.403468758f,0.405253559f,
0.407040596f,0.408829838f,0.410621345f,0.412415117f,0.414211124f,0.416009456f,0.417810053f,0.419612974f,0.42141822f,0.42322579f,0.425035715f,0.426847994f,
0.428662658f,0.430479705f,0.432299167f,0.434121042f,0.435945332f,0.437772065f,0.439601243f,0.441432923f,0.443267047f,0.445103675f,0.446942836f,0.4487845f,
0.450628728f,0.452475488f,0.454324812f,0.456176698f,0.458031207f,0.459888309f,0.461748034f,0.463610411f,0.46547541f,0.467343092f,0.469213456f,0.471086502f,
0.47296229f,0.47484076f,0.476722002f,0.478605986f,0.480492711f,0.482382268f,0.484274596f,0.486169726f,0.488067716f,0.489968508f,0.491872191f,0.493778735f,
0.4956882f,0.497600526f,0.499515802f,0.501434028f,0.503355145f,0.505279303f,0.50720644f,0.509136558f,0.511069655f,0.513005853f,0.51494503f,0.516887307f,
0.518832684f,0.520781159f,0.522732735f,0.524687469f,0.526645303f,0.528606355f,0.530570567f,0.532537937f,0.534508586f,0.536482453f,0.538459539f,0.540439904f,
0.542423606f,0.544410586f,0.546400845f,0.548394501f,0.550391495f,0.552391827f,0.554395616f,0.556402743f,0.558413386f,0.560427427f,0.562444925f,0.56446588f,
0.566490412f,0.5685184f,0.570549965f,0.572585106f,0.574623823f,0.576666117f,0.578711987f,0.580761552f,0.582814753f,0.58487165f,0.586932182f,0.58899647f,
0.591064513f,0.593136251f,0.595211804f,0.597291172f,0.599374294f,0.601461291f,0.603552103f,0.605646849f,0.607745469f,0.609847963f,0.611954451f,0.614064872f,
0.616179287f,0.618297696f,0.620420098f,0.622546554f,0.624677122f,0.626811743f,0.628950477f,0.631093323f,0.633240342f,0.635391533f,0.637546897f,0.639706552f,
0.641870379f,0.644038498f,0.646210909f,0.648387611f,0.650568664f,0.652754068f,0.654943883f,0.65713805f,0.659336686f,0.661539733f,0.663747311f,0.665959358f,
0.668175936f,0.670397043f,0.67262274f,0.674853027f,0.677087963f,0.679327488f,0.681571722f,0.683820665f,0.686074317f,0.688332736f,0.690595925f,0.692863882f,
0.695136726f,0.697414339f,0.699696898f,0.701984346f,0.704276681f,0.706574023f,0.708876371f,0.711183667f,0.713496029f,0.715813518f,0.718136013f,0.720463693f,
0.7227965f,0.725134432f,0.72747767f,0.729826093f,0.732179761f,0.734538734f,0.736903071f,0.739272714f,0.74164772f,0.744028211f,0.746414065f,0.748805463f,
0.751202285f,0.75360471f,0.756012619f,0.758426189f,0.760845363f,0.76327014f,0.765700638f,0.768136859f,0.770578861f,0.773026586f,0.775480151f,0.777939558f,
0.780404806f,0.782876015f,0.785353124f,0.787836254f,0.790325344f,0.792820513f,0.795321763f,0.797829092f,0.80034256f,0.802862227f,0.805388153f,0.807920277f,
0.81045866f,0.813003421f,0.8155545f,0.818112016f,0.82067591f,0.8232463f,0.825823128f,0.828406572f,0.830996513f,0.83359313f,0.836196363f,0.838806331f,
0.841422975f,0.844046414f,0.846676588f,0.849313676f,0.851957619f,0.854608476f,0.857266307f,0.859931111f,0.862603009f,0.86528194f,0.867968023f,0.870661199f,
0.873361647f,0.876069307f,0.878784299f,0.881506562f,0.884236276f,0.886973321f,0.889717877f,0.892469883f,0.895229518f,0.897996664f,0.900771499f,0.903553963f,
0.906344175f,0.909142137f,0.911947966f,0.914761603f,0.917583168f,0.920412719f,0.923250198f,0.926095784f,0.928949475f,0.931811273f,0.934681296f,0.937559545f,
0.940446079f,0.943340957f,0.94624418f,0.949155927f,0.952076077f,0.955004871f,0.957942188f,0.960888147f,0.963842809f,0.966806293f,0.969778478f,0.972759604f,
0.975749552f,0.97874856f,0.981756508f,0.984773576f,0.987799764f,0.99083513f,0.993879735f,0.996933639f,0.999996901f,1.00306952f,1.00615168f,1.00924337f,
1.0123446f,1.0154556f,1.01857615f,1.02170658f,1.02484679f,1.0279969f,1.0311569f,1.03432703f,1.03750706f,1.04069734f,1.04389787f,1.04710865f,
1.05032969f,1.05356121f,1.05680311f,1.06005561f,1.06331861f,1.06659234f,1.06987679f,1.07317197f,1.07647812f,1.07979524f,1.08312321f,1.08646238f,
1.08981264f,1.09317422f,1.09654701f,1.09993112f,1.1033268f,1.10673392f,1.1101526f,1.11358297f,1.11702502f,1.12047899f,1.12394476f,1.12742257f,
1.13091242f,1.13441443f,1.13792861f,1.14145505f,1.1449939f,1.14854515f,1.15210903f,1.15568542f,1.15927458f,1.16287661f,1.16649139f,1.17011917f,
1.17375994f,1.17741394f,1.18108106f,1.18476152f,1.18845546f,1.19216287f,1.19588387f,1.19961846f,1.20336688f,1.20712912f,1.21090543f,1.21469569f,
1.21850014f,1.22231889f,1.22615194f,1.22999942f,1.23386145f,1.23773813f,1.24162948f,1.24553585f,1.24945712f,1.25339341f,1.25734484f,1.26131153f,
1.26529372f,1.26929128f,1.27330446f,1.27733338f,1.28137815f,1.28543878f,1.2895155f,1.29360843f,1.29771757f,1.30184305f,1.30598509f,1.31014383f,
1.31431925f,1.31851149f,1.32272077f,1.32694721f,1.33119082f,1.33545184f,1.33973038f,1.34402645f,1.34834039f,1.3526721f,1.35702193f,1.36138988f,
1.36577606f,1.37018073f,1.37460387f,1.37904572f,1.38350642f,1.38798606f,1.3924849f,1.39700294f,1.4015404f,1.40609741f,1.4106741f,1.41527069f,
1.4198873f,1.42452395f,1.42918098f,1.43385851f,1.43855667f,1.44327557f,1.44801533f,1.45277631f,1.45755851f,1.46236217f,1.4671874f,1.47203445f,
1.47690332f,1.48179448f,1.48670781f,1.49164355f,1.49660206f,1.50158334f,1.50658762f,1.51161504f,1.51666582f,1.5217402f,1.5268383f,1.53196037f,
1.53710663f,1.5422771f,1.54747212f,1.55269194f,1.55793667f,1.56320643f,1.56850159f,1.57382226f,1.5791688f,1.5845412f,1.58993971f,1.59536469f,
1.60081637f,1.60629475f,1.61180031f,1.61733305f,1.62289345f,1.62848151f,1.63409758f,1.6397419f,1.64541459f,1.65111613f,1.65684652f,1.66260612f,
1.66839528f,1.67421401f,1.68006277f,1.68594182f,1.69185126f,1.69779146f,1.70376277f,1.7097652f,1.71579933f,1.7218653f,1.72796345f,1.7340939f,
1.74025714f,1.74645329f,1.75268281f,1.75894582f,1.76524282f,1.7715739f,1.77793956f,1.78434002f,1.79077566f,1.79724669f,1.80375361f,1.81029654f,
1.81687593f,1.82349217f,1.83014536f,1.8368361f,1.84356475f,1.85033143f,1.85713673f,1.86398077f,1.87086415f,1.87778723f,1.88475025f,1.89175355f,
1.89879775f,1.90588307f,1.91300988f,1.92017865f,1.92738986f,1.93464375f,1.9419409f,1.94928157f,1.95666635f,1.96409559f,1.97156966f,1.97908914f,
1.9866544f,1.99426591f,2.00192404f,2.00962949f,2.01738262f,2.02518368f,2.03303361f,2.04093242f,2.04888105f,2.05687976f,2.06492901f,2.07302952f,
2.08118153f,2.08938599f,2.09764314f,2.10595345f,2.11431789f,2.12273645f,2.13121033f,2.13973951f,2.14832497f,2.1569674f,2.16566706f,2.17442465f,
2.18324089f,2.1921165f,2.20105171f,2.21004772f,2.21910501f,2.22822404f,2.23740554f,2.24665022f,2.25595903f,2.26533246f,2.27477121f,2.28427625f,
2.2938478f,2.3034873f,2.31319499f,2.32297182f,2.33281851f,2.34273601f,2.35272503f,2.36278653f,2.37292099f,2.3831296f,2.39341331f,2.40377259f,
2.41420865f,2.42472219f,2.43531418f,2.44598579f,2.45673776f,2.46757102f,2.47848654f,2.4894855f,2.50056887f,2.51173735f,2.52299237f,2.5343349f,
2.54576588f,2.5572865f,2.56889772f,2.58060098f,2.59239721f,2.60428762f,2.61627364f,2.62835598f,2.64053631f,2.65281558f,2.66519523f,2.67767644f,
2.69026089f,2.70294929f,2.71574354f,2.72864485f,2.74165463f,2.75477433f,2.76800513f,2.78134894f,2.7948072f,2.80838132f,2.82207274f,2.83588338f,
2.84981465f,2.86386824f,2.8780458f,2.89234924f,2.90678f,2.92134023f,2.93603134f,2.95085549f,2.96581435f,2.98091006f,2.99614453f,3.01151943f,
3.02703714f,3.04269981f,3.05850935f,3.07446766f,3.09057736f,3.10684061f,3.12325954f,3.13983679f,3.15657425f,3.17347455f,3.19054031f,3.20777392f,
3.225178f,3.24275494f,3.26050782f,3.27843928f,3.29655194f,3.31484842f,3.3333323f,3.35200596f,3.37087274f,3.38993573f,3.40919781f,3.42866254f,
3.44833302f,3.46821284f,3.48830533f,3.50861382f,3.52914238f,3.54989409f,3.57087326f,3.59208345f,3.61352873f,3.63521314f,3.65714073f,3.67931557f,
3.70174217f,3.72442508f,3.74736857f,3.77057743f,3.79405618f,3.81780982f,3.84184361f,3.86616206f,3.89077067f,3.91567492f,3.9408803f,3.96639204f,
3.99221611f,4.01835871f,4.04482508f,4.07162237f,4.09875631f,4.12623405f,4.15406132f,4.18224573f,4.21079397f,4.23971367f,4.26901197f,4.29869604f,
4.32877445f,4.35925531f,4.39014626f,4.42145634f,4.45319366f,4.48536777f,4.51798773f,4.55106306f,4.58460331f,4.61861897f,4.65311956f,4.68811655f,
4.72362041f,4.7596426f,4.79619455f,4.83328867f,4.87093639f,4.90915155f,4.94794607f,4.98733425f,5.02732992f,5.06794739f,5.10920095f,5.15110636f,
5.19367933f,5.23693609f,5.28089333f,5.32556868f,5.37098026f,5.41714621f,5.46408558f,5.51181841f,5.56036568f,5.60974836f,5.65998793f,5.71110773f,
5.76313114f,5.81608248f,5.86998701f,5.92487144f,5.98076248f,6.03768873f,6.09567881f,6.15476418f,6.21497583f,6.27634621f,6.3389101f,6.40270281f,
6.46776056f,6.53412247f,6.60182858f,6.67091942f,6.74143934f,6.81343269f,6.88694668f,6.96203089f,7.03873634f,7.11711597f,7.19722605f,7.27912474f,
7.36287308f,7.44853449f,7.5361762f,7.62586832f,7.71768332f,7.81169844f,7.90799427f,8.00665474f,8.10776901f,8.21143055f,8.31773567f,8.42679024f,
8.5387001f,8.65358067f,8.77155209f,8.8927412f,9.01728344f,9.14531898f,9.27699757f,9.41247845f,9.55192852f,9.69552612f,9.84346008f,9.99592972f,
10.1531477f,10.315341f,10.482749f,10.6556301f,10.8342562f,11.0189199f,11.2099333f,11.4076319f,11.6123714f,11.8245382f,12.0445442f,12.2728329f,
12.509882f,12.7562075f,13.0123644f,13.2789564f,13.5566349f,13.8461084f,14.1481447f,14.463582f,14.793334f,15.1384001f,15.4998732f,15.8789539f,
16.2769623f,16.6953564f,17.1357441f,17.5999088f,18.0898323f,18.6077213f,19.156044f,19.7375679f,20.3554039f,21.0130672f,21.7145424f,22.4643574f,
23.2676964f,24.1305027f,25.059639f,26.0630646f,27.1500683f,28.3315468f,29.620388f,31.0319252f,32.5845642f,34.3005867f,36.2072182f,38.3381004f,
40.7352753f,43.4520035f,46.5567665f,50.1390991f,54.3184013f,59.2574768f,65.1842575f,72.4279785f,81.4824905f,93.1238327f,108.645416f,130.375336f,
162.969803f,217.293076f,325.937347f,651.85498f,-30000000.0f,-651.941284f,-325.959259f,-217.302963f,-162.975433f,-130.378998f,-108.647995f,-93.1257629f,
-81.4839859f,-72.4291763f,-65.1852417f,-59.2583008f,-54.3191032f,-50.1397057f,-46.5572968f,-43.4524727f,-40.7356911f,-38.3384743f,-36.2075577f,-34.3008919f,
-32.5848465f,-31.0321827f,-29.6206264f,-28.331768f,-27.1502743f,-26.0632572f,-25.0598183f,-24.1306705f,-23.2678547f,-22.4645081f,-21.7146835f,-21.0132027f,
-20.3555317f,-19.7376881f,-19.1561584f,-18.60783f,-18.0899372f,-17.6000099f,-17.1358414f,-16.6954498f,-16.2770519f,-15.8790398f,-15.4999561f,-15.1384802f,
-14.7934122f,-14.4636574f,-14.1482172f,-13.8461781f,-13.5567036f,-13.2790222f,-13.0124283f,-12.7562695f,-12.5099421f,-12.272892f,-12.0446014f,-11.8245945f,
-11.6124258f,-11.4076843f,-11.2099848f,-11.0189695f,-10.8343048f,-10.6556778f,-10.4827967f,-10.3153868f,-10.1531925f,-9.99597359f,-9.843503f,-9.69556904f,
-9.55196953f,-9.4125185f,-9.27703762f,-9.14535809f,-9.01732159f,-8.89277935f,-8.77158928f,-8.65361691f,-8.53873539f,-8.42682457f,-8.31777096f,-8.21146393f,
-8.10780239f,-8.00668812f,-7.9080267f,-7.81173038f,-7.71771479f,-7.62589931f,-7.53620672f,-7.44856453f,-7.36290264f,-7.27915382f,-7.19725466f,-7.11714411f,
-7.038764f,-6.96205854f,-6.88697433f,-6.8134594f,-6.74146557f,-6.67094564f,-6.60185432f,-6.53414822f,-6.46778584f,-6.4027276f,-6.3389349f,-6.27637053f,
-6.21499968f,-6.15478802f,-6.09570265f,-6.0377121f,-5.98078537f,-5.92489433f,-5.87000942f,-5.81610489f,-5.76315308f,-5.71112967f,-5.66000938f,-5.60976982f,
-5.56038713f,-5.51183987f,-5.46410656f,-5.41716671f,-5.37100077f,-5.32558918f,-5.28091335f,-5.23695612f,-5.19369888f,-5.15112591f,-5.1092205f,-5.06796646f,
-5.027349f,-4.98735332f,-4.94796515f,-4.90917015f,-4.87095499f,-4.83330679f,-4.79621267f,-4.75966072f,-4.72363806f,-4.68813419f,-4.65313721f,-4.61863613f,
-4.58462095f,-4.55108023f,-4.51800489f,-4.48538494f,-4.45321083f,-4.42147303f,-4.39016294f,-4.359272f,-4.32879114f,-4.29871225f,-4.26902771f,-4.23972988f,
-4.21081018f,-4.18226147f,-4.15407705f,-4.12624979f,-4.09877205f,-4.07163811f,-4.04484081f,-4.01837397f,-3.99223137f,-3.96640706f,-3.94089532f,-3.91568995f,
-3.89078546f,-3.86617684f,-3.84185815f,-3.81782436f,-3.79407072f,-3.77059174f,-3.74738288f,-3.72443938f,-3.70175648f,-3.67932963f,-3.65715456f,-3.63522696f,
-3.61354256f,-3.59209728f,-3.57088709f,-3.54990768f,-3.52915573f,-3.50862741f,-3.48831868f,-3.46822619f,-3.44834638f,-3.42867589f,-3.40921092f,-3.38994884f,
-3.37088585f,-3.35201907f,-3.33334517f,-3.3148613f,-3.29656458f,-3.27845192f,-3.26052046f,-3.24276757f,-3.2251904f,-3.20778632f,-3.19055271f,-3.17348695f,
-3.15658641f,-3.13984895f,-3.12327194f,-3.10685277f,-3.09058952f,-3.07447982f,-3.05852127f,-3.04271173f,-3.02704906f,-3.01153135f,-2.99615622f,-2.98092175f,
-2.96582603f,-2.95086718f,-2.93604302f,-2.92135167f,-2.90679145f,-2.89236069f,-2.87805724f,-2.86387944f,-2.84982586f,-2.83589458f,-2.82208395f,-2.80839252f,
-2.7948184f,-2.78136015f,-2.76801634f,-2.7547853f,-2.7416656f,-2.72865582f,-2.71575451f,-2.70296025f,-2.69027162f,-2.67768741f,-2.66520596f,-2.65282631f,
-2.6405468f,-2.62836671f,-2.61628413f,-2.60429835f,-2.5924077f,-2.58061147f,-2.56890821f,-2.55729675f,-2.54577613f,-2.53434515f,-2.52300262f,-2.5117476f,
-2.50057912f,-2.48949575f,-2.47849679f,-2.46758127f,-2.45674777f,-2.44599581f,-2.43532443f,-2.42473221f,-2.41421866f,-2.40378261f,-2.39342308f,-2.38313961f,
-2.372931f,-2.36279631f,-2.3527348f,-2.34274578f,-2.33282828f,-2.3229816f,-2.31320453f,-2.30349684f,-2.29385757f,-2.28428578f,-2.27478075f,-2.265342f,
-2.25596857f,-2.24665976f,-2.23741508f,-2.22823334f,-2.2191143f,-2.21005726f,-2.20106125f,-2.1921258f,-2.18325019f,-2.17443395f,-2.16567636f,-2.15697646f,
-2.14833426f,-2.13974881f,-2.13121939f,-2.12274575f,-2.11432695f,-2.10596251f,-2.0976522f,-2.08939505f,-2.08119059f,-2.07303858f,-2.06493807f,-2.05688858f,
-2.04889011f,-2.04094148f,-2.03304243f,-2.02519274f,-2.01739144f,-2.00963831f,-2.00193286f,-1.99427474f,-1.98666322f,-1.97909784f,-1.97157836f,-1.96410429f,
-1.95667505f,-1.94929028f,-1.94194949f,-1.93465245f,-1.92739844f,-1.92018723f,-1.91301847f,-1.90589154f,-1.89880621f,-1.89176214f,-1.88475871f,-1.8777957f,
-1.87087262f,-1.86398923f,-1.85714507f,-1.85033977f,-1.84357309f,-1.83684444f,-1.8301537f,-1.82350039f,-1.81688428f,-1.81030488f,-1.80376184f,-1.79725504f,
-1.79078388f,-1.78434825f,-1.77794778f,-1.77158213f,-1.76525092f,-1.75895393f,-1.75269091f,-1.74646139f,-1.74026513f,-1.73410201f,-1.72797143f,-1.7218734f,
-1.71580744f,-1.7097733f,-1.70377076f,-1.69779944f,-1.69185925f,-1.68594968f,-1.68007076f,-1.67422199f,-1.66840315f,-1.66261411f,-1.65685439f,-1.651124f,
-1.64542246f,-1.63974965f,-1.63410544f,-1.62848926f,-1.6229012f,-1.61734092f,-1.61180806f,-1.6063025f,-1.600824f,-1.59537244f,-1.58994746f,-1.58454883f,
-1.57917643f,-1.57382989f,-1.56850922f,-1.56321406f,-1.55794418f,-1.55269957f,-1.54747975f,-1.54228473f,-1.53711414f,-1.531968f,-1.52684593f,-1.52174771f,
-1.51667333f,-1.51162255f,-1.50659502f,-1.50159073f,-1.49660945f,-1.49165106f,-1.4867152f,-1.48180187f,-1.47691071f,-1.47204185f,-1.4671948f,-1.46236956f,
-1.4575659f,-1.4527837f,-1.44802272f,-1.44328284f,-1.43856394f,-1.43386579f,-1.42918825f,-1.42453122f,-1.41989458f,-1.41527796f,-1.41068137f,-1.40610468f,
-1.40154767f,-1.39701009f,-1.39249206f,-1.38799322f,-1.38351357f,-1.37905288f,-1.37461102f,-1.37018776f,-1.36578321f,-1.36139691f,-1.35702896f,-1.35267925f,
-1.34834743f,-1.3440336f,-1.33973742f,-1.33545887f,-1.33119786f,-1.32695425f,-1.3227278f,-1.31851852f,-1.31432617f,-1.31015074f,-1.30599201f,-1.30184996f,
-1.29772449f,-1.29361534f,-1.28952241f,-1.28544569f,-1.28138506f,-1.27734029f,-1.27331138f,-1.2692982f,-1.26530051f,-1.26131845f,-1.25735164f,-1.25340021f,
-1.24946392f,-1.24554265f,-1.24163628f,-1.23774493f,-1.23386824f,-1.2300061f,-1.22615862f,-1.22232556f,-1.21850693f,-1.21470249f,-1.21091211f,-1.20713592f,
-1.20337355f,-1.19962513f,-1.19589055f,-1.19216955f,-1.18846214f,-1.1847682f,-1.18108773f,-1.1774205f,-1.17376661f,-1.17012572f,-1.16649795f,-1.16288316f,
-1.15928125f,-1.15569198f,-1.15211558f,-1.1485517f,-1.14500046f,-1.14146161f,-1.13793516f,-1.13442087f,-1.13091898f,-1.12742913f,-1.12395132f,-1.12048542f,
-1.11703157f,-1.11358941f,-1.11015904f,-1.10674036f,-1.10333323f,-1.09993756f,-1.09655344f,-1.09318066f,-1.08981907f,-1.08646882f,-1.08312964f,-1.07980156f,
-1.07648456f,-1.07317841f,-1.06988311f,-1.06659865f,-1.06332493f,-1.06006193f,-1.05680943f,-1.05356753f,-1.050336f,-1.04711497f,-1.04390419f,-1.04070365f,
-1.03751338f,-1.03433323f,-1.03116322f,-1.0280031f,-1.02485299f,-1.02171278f,-1.01858246f,-1.0154618f,-1.01235092f,-1.00924957f,-1.00615788f,-1.00307584f,
-1.0000031f,-0.996939838f,-0.993885934f,-0.990841329f,-0.987805903f,-0.984779716f,-0.981762648f,-0.978754699f,-0.975755692f,-0.972765744f,-0.969784617f,-0.966812372f,
-0.963848948f,-0.960894287f,-0.957948267f,-0.955010951f,-0.952082217f,-0.949162006f,-0.94625026f,-0.943346977f,-0.940452099f,-0.937565565f,-0.934687316f,-0.931817293f,
-0.928955495f,-0.926101804f,-0.923256218f,-0.920418739f,-0.917589188f,-0.914767623f,-0.911953926f,-0.909148157f,-0.906350136f,-0.903559923f,-0.900777459f,-0.898002625f,
-0.895235419f,-0.892475843f,-0.889723837f,-0.886979282f,-0.884242177f,-0.881512523f,-0.8787902f,-0.876075268f,-0.873367548f,-0.8706671f,-0.867973864f,-0.86528784f,
-0.86260885f,-0.859937012f,-0.857272148f,-0.854614317f,-0.85196346f,-0.849319518f,-0.846682429f,-0.844052196f,-0.841428816f,-0.838812113f,-0.836202204f,-0.833598971f,
-0.831002355f,-0.828412354f,-0.82582891f,-0.823252082f,-0.820681691f,-0.818117738f,-0.815560281f,-0.813009202f,-0.810464442f,-0.807925999f,-0.805393875f,-0.802868009f,
-0.800348341f,-0.797834814f,-0.795327485f,-0.792826235f,-0.790331066f,-0.787841916f,-0.785358846f,-0.782881677f,-0.780410528f,-0.77794522f,-0.775485814f,-0.773032248f,
-0.770584524f,-0.768142521f,-0.765706301f,-0.763275802f,-0.760850966f,-0.758431792f,-0.756018281f,-0.753610313f,-0.751207888f,-0.748811066f,-0.746419668f,-0.744033813f,
-0.741653323f,-0.739278316f,-0.736908615f,-0.734544337f,-0.732185364f,-0.729831636f,-0.727483213f,-0.725140035f,-0.722802043f,-0.720469236f,-0.718141556f,-0.715819001f,
-0.713501573f,-0.71118921f,-0.708881855f,-0.706579566f,-0.704282224f,-0.70198983f,-0.699702382f,-0.697419822f,-0.69514221f,-0.692869365f,-0.690601408f,-0.68833822f,
-0.6860798f,-0.683826149f,-0.681577206f,-0.679332972f,-0.677093387f,-0.674858451f,-0.672628164f,-0.670402467f,-0.66818136f,-0.665964782f,-0.663752735f,-0.661545157f,
-0.65934211f,-0.657143474f,-0.654949248f,-0.652759492f,-0.650574028f,-0.648392975f,-0.646216273f,-0.644043863f,-0.641875744f,-0.639711916f,-0.637552261f,-0.635396898f,
-0.633245707f,-0.631098688f,-0.628955781f,-0.626817048f,-0.624682426f,-0.622551918f,-0.620425403f,-0.618303001f,-0.616184592f,-0.614070177f,-0.611959755f,-0.609853268f,
-0.607750714f,-0.605652153f,-0.603557408f,-0.601466537f,-0.599379539f,-0.597296417f,-0.595217049f,-0.593141496f,-0.591069758f,-0.589001715f,-0.586937428f,-0.584876835f,
-0.582819998f,-0.580766797f,-0.578717232f,-0.576671302f,-0.574629009f,-0.572590292f,-0.57055521f,-0.568523645f,-0.566495597f,-0.564471126f,-0.562450111f,-0.560432613f,
-0.558418512f,-0.556407928f,-0.554400742f,-0.552397013f,-0.550396621f,-0.548399627f,-0.546406031f,-0.544415712f,-0.542428732f,-0.540445089f,-0.538464665f,-0.536487579f,
-0.534513712f,-0.532543063f,-0.530575633f,-0.528611422f,-0.526650429f,-0.524692535f,-0.522737861f,-0.520786226f,-0.51883781f,-0.516892433f,-0.514950097f,-0.513010919f,
-0.511074722f,-0.509141624f,-0.507211506f,-0.505284369f,-0.503360212f,-0.501439035f,-0.499520868f,-0.497605592f,-0.495693237f,-0.493783772f,-0.491877228f,-0.489973545f,
-0.488072723f,-0.486174762f,-0.484279603f,-0.482387275f,-0.480497718f,-0.478610992f,-0.476727009f,-0.474845767f,-0.472967267f,-0.471091509f,-0.469218433f,-0.467348069f,
-0.465480387f,-0.463615388f,-0.461753011f,-0.459893286f,-0.458036155f,-0.456181645f,-0.454329759f,-0.452480435f,-0.450633645f,-0.448789448f,-0.446947783f,-0.445108622f,
-0.443271965f,-0.44143784f,-0.43960616f,-0.437776983f,-0.43595022f,-0.43412593f,-0.432304054f,-0.430484623f,-0.428667545f,-0.426852882f,-0.425040603f,-0.423230678f,
-0.421423078f,-0.419617832f,-0.41781491f,-0.416014314f,-0.414215982f,-0.412419975f,-0.410626203f,-0.408834696f,-0.407045454f,-0.405258417f,-0.403473616f,-0.40169102f,
-0.399910629f,-0.398132384f,-0.396356344f,-0.39458245f,-0.392810732f,-0.3910411f,-0.389273614f,-0.387508243f,-0.385744959f,-0.383983761f,-0.382224649f,-0.380467594f,
-0.378712595f,-0.376959622f,-0.375208676f,-0.373459727f,-0.371712804f,-0.369967878f,-0.368224919f,-0.366483927f,-0.364744902f,-0.363007814f,-0.361272633f,-0.359539419f,
-0.357808083f,-0.356078655f,-0.354351133f,-0.352625489f,-0.350901693f,-0.349179745f,-0.347459644f,-0.345741391f,-0.344024956f,-0.342310339f,-0.34059751f,-0.33888647f,
-0.337177187f,-0.335469693f,-0.333763957f,-0.332059979f,-0.33035773f,-0.32865718f,-0.326958358f,-0.325261265f,-0.323565841f,-0.321872085f,-0.320180029f,-0.318489611f,
-0.316800863f,-0.315113723f,-0.313428253f,-0.311744392f,-0.31006214f,-0.308381468f,-0.306702405f,-0.305024922f,-0.303348988f,-0.301674634f,-0.30000183f,-0.298330545f,
-0.296660811f,-0.294992596f,-0.293325871f,-0.291660637f,-0.289996922f,-0.288334668f,-0.286673903f,-0.28501457f,-0.283356726f,-0.281700283f,-0.280045301f,-0.278391719f,
-0.276739568f,-0.275088787f,-0.273439437f,-0.271791428f,-0.27014482f,-0.268499583f,-0.266855687f,-0.265213132f,-0.263571918f,-0.261932045f,-0.260293484f,-0.258656204f,
-0.257020265f,-0.255385578f,-0.253752202f,-0.252120078f,-0.250489205f,-0.248859614f,-0.247231245f,-0.245604128f,-0.243978217f,-0.242353544f,-0.240730062f,-0.239107788f,
-0.23748669f,-0.235866785f,-0.234248042f,-0.232630476f,-0.231014058f,-0.229398772f,-0.227784634f,-0.226171628f,-0.224559739f,-0.222948954f,-0.22133927f,-0.21973069f,
-0.218123183f,-0.216516763f,-0.214911401f,-0.213307098f,-0.211703837f,-0.210101634f,-0.208500445f,-0.206900284f,-0.205301151f,-0.203703016f,-0.20210588f,-0.200509727f,
-0.198914573f,-0.197320372f,-0.195727155f,-0.194134876f,-0.192543566f,-0.19095318f,-0.189363733f,-0.187775195f,-0.186187595f,-0.18460089f,-0.183015078f,-0.181430161f,
-0.179846123f,-0.178262964f,-0.176680669f,-0.175099224f,-0.173518643f,-0.171938881f,-0.170359969f,-0.168781877f,-0.167204604f,-0.16562815f,-0.164052486f,-0.162477612f,
-0.160903528f,-0.159330219f,-0.15775767f,-0.156185895f,-0.154614866f,-0.153044596f,-0.151475042f,-0.149906233f,-0.148338139f,-0.14677076f,-0.145204082f,-0.143638104f,
-0.142072827f,-0.14050822f,-0.138944283f,-0.137381017f,-0.135818422f,-0.134256467f,-0.132695153f,-0.13113448f,-0.129574433f,-0.128014997f,-0.126456186f,-0.124897972f,
-0.123340361f,-0.121783338f,-0.120226897f,-0.118671022f,-0.117115721f,-0.115560979f,-0.114006788f,-0.11245314f,-0.110900022f,-0.10934744f,-0.107795373f,-0.106243826f,
-0.104692779f,-0.103142232f,-0.101592176f,-0.100042604f,-0.0984935015f,-0.096944876f,-0.095396705f,-0.0938489884f,-0.0923017189f,-0.0907548815f,-0.0892084837f,-0.0876625031f,
-0.0861169398f,-0.0845717862f,-0.0830270275f,-0.0814826712f,-0.0799386948f,-0.0783950984f,-0.0768518746f,-0.0753090084f,-0.0737665072f,-0.0722243488f,-0.0706825331f,-0.0691410527f,
-0.0675999001f,-0.0660590678f,-0.0645185485f,-0.0629783347f,-0.0614384152f,-0.0598987862f,-0.0583594404f,-0.0568203703f,-0.0552815683f,-0.0537430272f,-0.052204743f,-0.050666701f,
-0.0491288975f,-0.0475913286f,-0.0460539833f,-0.044516854f,-0.042979937f,-0.0414432213f,-0.0399067029f,-0.0383703709f,-0.0368342176f,-0.0352982394f,-0.0337624289f,-0.0322267748f,
-0.0306912754f,-0.0291559193f,-0.0276207011f,-0.0260856133f,-0.0245506465f,-0.0230157971f,-0.0214810539f,-0.019946415f,-0.0184118673f,-0.0168774072f,-0.0153430263f,-0.013808718f,
-0.0122744748f,-0.0107402885f,-0.00920615345f,-0.00767206214f,-0.00613800623f,-0.00460397964f,-0.00306997425f,-0.00153598352f};
static const float t_tan_hi[2048] = {
1.99999999e-06f,0.00153598352f,0.00306997425f,0.00460397964f,0.00613800623f,0.00767206214f,0.00920615345f,0.0107402885f,0.0122744748f,0.013808718f,0.0153430263f,0.0168774072f,
0.0184118673f,0.019946415f,0.0214810539f,0.0230157971f,0.0245506465f,0.0260856133f,0.0276207011f,0.0291559193f,0.0306912754f,0.0322267748f,0.0337624289f,0.0352982394f,
0.0368342176f,0.0383703709f,0.0399067029f,0.0414432213f,0.042979937f,0.044516854f,0.0460539833f,0.0475913286f,0.0491288975f,0.050666701f,0.052204743f,0.0537430272f,
0.0552815683f,0.0568203703f,0.0583594404f,0.0598987862f,0.0614384152f,0.0629783347f,0.0645185485f,0.0660590678f,0.0675999001f,0.0691410527f,0.0706825331f,0.0722243488f,
0.0737665072f,0.0753090084f,0.0768518746f,0.0783950984f,0.0799386948f,0.0814826712f,0.0830270275f,0.0845717862f,0.0861169398f,0.0876625031f,0.0892084837f,0.0907548815f,
0.0923017189f,0.0938489884f,0.095396705f,0.096944876f,0.0984935015f,0.100042604f,0.101592176f,0.103142232f,0.104692779f,0.106243826f,0.107795373f,0.10934744f,
0.110900022f,0.11245314f,0.114006788f,0.115560979f,0.117115721f,0.118671022f,0.120226897f,0.121783338f,0.123340361f,0.124897972f,0.126456186f,0.128014997f,
0.129574433f,0.13113448f,0.132695153f,0.134256467f,0.135818422f,0.137381017f,0.138944283f,0.14050822f,0.142072827f,0.143638104f,0.145204082f,0.14677076f,
0.148338139f,0.149906233f,0.151475042f,0.153044596f,0.154614866f,0.156185895f,0.15775767f,0.159330219f,0.160903528f,0.162477612f,0.164052486f,0.16562815f,
0.167204604f,0.168781877f,0.170359969f,0.171938881f,0.173518643f,0.175099224f,0.176680669f,0.178262964f,0.179846123f,0.181430161f,0.183015078f,0.18460089f,
0.186187595f,0.187775195f,0.189363733f,0.19095318f,0.192543566f,0.194134876f,0.195727155f,0.197320372f,0.198914573f,0.200509727f,0.20210588f,0.203703016f,
0.205301151f,0.206900284f,0.208500445f,0.210101634f,0.211703837f,0.213307098f,0.214911401f,0.216516763f,0.218123183f,0.21973069f,0.22133927f,0.222948954f,
0.224559739f,0.226171628f,0.227784634f,0.229398772f,0.231014058f,0.232630476f,0.234248042f,0.235866785f,0.23748669f,0.239107788f,0.240730062f,0.242353544f,
0.243978217f,0.245604128f,0.247231245f,0.248859614f,0.250489205f,0.252120078f,0.253752202f,0.255385578f,0.257020265f,0.258656204f,0.260293484f,0.261932045f,
0.263571918f,0.265213132f,0.266855687f,0.268499583f,0.27014482f,0.271791428f,0.273439437f,0.275088787f,0.276739568f,0.278391719f,0.280045301f,0.281700283f,
0.283356726f,0.28501457f,0.286673903f,0.288334668f,0.289996922f,0.291660637f,0.293325871f,0.294992596f,0.296660811f,0.298330545f,0.30000183f,0.301674634f,
0.303348988f,0.305024922f,0.306702405f,0.308381468f,0.31006214f,0.311744392f,0.313428253f,0.315113723f,0.316800863f,0.318489611f,0.320180029f,0.321872085f,
0.323565841f,0.325261265f,0.326958358f,0.32865718f,0.33035773f,0.332059979f,0.333763957f,0.335469693f,0.337177187f,0.33888647f,0.34059751f,0.342310339f,
0.344024956f,0.345741391f,0.347459644f,0.349179745f,0.350901693f,0.352625489f,0.354351133f,0.356078655f,0.357808083f,0.359539419f,0.361272633f,0.363007814f,
0.364744902f,0.366483927f,0.368224919f,0.369967878f,0.371712804f,0.373459727f,0.375208676f,0.376959622f,0.378712595f,0.380467594f,0.382224649f,0.383983761f,
0.385744959f,0.387508243f,0.389273614f,0.3910411f,0.392810732f,0.39458245f,0.396356344f,0.398132384f,0.399910629f,0.40169102f,0.403473616f,0.405258417f,
0.407045454f,0.408834696f,0.410626203f,0.412419975f,0.414215982f,0.416014314f,0.41781491f,0.419617832f,0.421423078f,0.423230678f,0.425040603f,0.426852882f,
0.428667545f,0.430484623f,0.432304054f,0.43412593f,0.43595022f,0.437776983f,0.43960616f,0.44143784f,0.443271965f,0.445108622f,0.446947783f,0.448789448f,
0.450633645f,0.452480435f,0.454329759f,0.456181645f,0.458036155f,0.459893286f,0.461753011f,0.463615388f,0.465480387f,0.467348069f,0.469218433f,0.471091509f,
0.472967267f,0.474845767f,0.476727009f,0.478610992f,0.480497718f,0.482387275f,0.484279603f,0.486174762f,0.488072723f,0.489973545f,0.491877228f,0.493783772f,
0.495693237f,0.497605592f,0.499520868f,0.501439035f,0.503360212f,0.505284369f,0.507211506f,0.509141624f,0.511074722f,0.513010919f,0.514950097f,0.516892433f,
0.51883781f,0.520786226f,0.522737861f,0.524692535f,0.526650429f,0.528611422f,0.530575633f,0.532543063f,0.534513712f,0.536487579f,0.538464665f,0.540445089f,
0.542428732f,0.544415712f,0.546406031f,0.548399627f,0.550396621f,0.552397013f,0.554400742f,0.556407928f,0.558418512f,0.560432613f,0.562450111f,0.564471126f,
0.566495597f,0.568523645f,0.57055521f,0.572590292f,0.574629009f,0.576671302f,0.578717232f,0.580766797f,0.582819998f,0.584876835f,0.586937428f,0.589001715f,
0.591069758f,0.593141496f,0.595217049f,0.597296417f,0.599379539f,0.601466537f,0.603557408f,0.605652153f,0.607750714f,0.609853268f,0.611959755f,0.614070177f,
0.616184592f,0.618303001f,0.620425403f,0.622551918f,0.624682426f,0.626817048f,0.628955781f,0.631098688f,0.633245707f,0.635396898f,0.637552261f,0.639711916f,
0.641875744f,0.644043863f,0.646216273f,0.648392975f,0.650574028f,0.652759492f,0.654949248f,0.657143474f,0.65934211f,0.661545157f,0.663752735f,0.665964782f,
0.66818136f,0.670402467f,0.672628164f,0.674858451f,0.677093387f,0.679332972f,0.681577206f,0.683826149f,0.6860798f,0.68833822f,0.690601408f,0.692869365f,
0.69514221f,0.697419822f,0.699702382f,0.70198983f,0.704282224f,0.706579566f,0.708881855f,0.71118921f,0.713501573f,0.715819001f,0.718141556f,0.720469236f,
0.722802043f,0.725140035f,0.727483213f,0.729831636f,0.732185364f,0.734544337f,0.736908615f,0.739278316f,0.741653323f,0.744033813f,0.746419668f,0.748811066f,
0.751207888f,0.753610313f,0.756018281f,0.758431792f,0.760850966f,0.763275802f,0.765706301f,0.768142521f,0.770584524f,0.773032248f,0.775485814f,0.77794522f,
0.780410528f,0.782881677f,0.785358846f,0.787841916f,0.790331066f,0.792826235f,0.795327485f,0.797834814f,0.800348341f,0.802868009f,0.805393875f,0.807925999f,
0.810464442f,0.813009202f,0.815560281f,0.818117738f,0.820681691f,0.823252082f,0.82582891f,0.828412354f,0.831002355f,0.833598971f,0.836202204f,0.838812113f,
0.841428816f,0.844052196f,0.846682429f,0.849319518f,0.85196346f,0.854614317f,0.857272148f,0.859937012f,0.86260885f,0.86528784f,0.867973864f,0.8706671f,
0.873367548f,0.876075268f,0.8787902f,0.881512523f,0.884242177f,0.886979282f,0.889723837f,0.892475843f,0.895235419f,0.898002625f,0.900777459f,0.903559923f,
0.906350136f,0.909148157f,0.911953926f,0.914767623f,0.917589188f,0.920418739f,0.923256218f,0.926101804f,0.928955495f,0.931817293f,0.934687316f,0.937565565f,
0.940452099f,0.943346977f,0.94625026f,0.949162006f,0.952082217f,0.955010951f,0.957948267f,0.960894287f,0.963848948f,0.966812372f,0.969784617f,0.972765744f,
0.975755692f,0.978754699f,0.981762648f,0.984779716f,0.987805903f,0.990841329f,0.993885934f,0.996939838f,1.0000031f,1.00307584f,1.00615788f,1.00924957f,
1.01235092f,1.0154618f,1.01858246f,1.02171278f,1.02485299f,1.0280031f,1.03116322f,1.03433323f,1.03751338f,1.04070365f,1.04390419f,1.04711497f,
1.050336f,1.05356753f,1.05680943f,1.06006193f,1.06332493f,1.06659865f,1.06988311f,1.07317841f,1.07648456f,1.07980156f,1.08312964f,1.08646882f,
1.08981907f,1.09318066f,1.09655344f,1.09993756f,1.10333323f,1.10674036f,1.11015904f,1.11358941f,1.11703157f,1.12048542f,1.12395132f,1.12742913f,
1.13091898f,1.13442087f,1.13793516f,1.14146161f,1.14500046f,1.1485517f,1.15211558f,1.15569198f,1.15928125f,1.16288316f,1.16649795f,1.17012572f,
1.17376661f,1.1774205f,1.18108773f,1.1847682f,1.18846214f,1.19216955f,1.19589055f,1.19962513f,1.20337355f,1.20713592f,1.21091211f,1.21470249f,
1.21850693f,1.22232556f,1.22615862f,1.2300061f,1.23386824f,1.23774493f,1.24163628f,1.24554265f,1.24946392f,1.25340021f,1.25735164f,1.26131845f,
1.26530051f,1.2692982f,1.27331138f,1.27734029f,1.28138506f,1.28544569f,1.28952241f,1.29361534f,1.29772449f,1.30184996f,1.30599201f,1.31015074f,
1.31432617f,1.31851852f,1.3227278f,1.32695425f,1.33119786f,1.33545887f,1.33973742f,1.3440336f,1.34834743f,1.35267925f,1.35702896f,1.36139691f,
1.36578321f,1.37018776f,1.37461102f,1.37905288f,1.38351357f,1.38799322f,1.39249206f,1.39701009f,1.40154767f,1.40610468f,1.41068137f,1.41527796f,
1.41989458f,1.42453122f,1.42918825f,1.43386579f,1.43856394f,1.44328284f,1.44802272f,1.4527837f,1.4575659f,1.46236956f,1.4671948f,1.47204185f,
1.47691071f,1.48180187f,1.4867152f,1.49165106f,1.49660945f,1.50159073f,1.50659502f,1.51162255f,1.51667333f,1.52174771f,1.52684593f,1.531968f,
1.53711414f,1.54228473f,1.54747975f,1.55269957f,1.55794418f,1.56321406f,1.56850922f,1.57382989f,1.57917643f,1.58454883f,1.58994746f,1.59537244f,
1.600824f,1.6063025f,1.61180806f,1.61734092f,1.6229012f,1.62848926f,1.63410544f,1.63974965f,1.64542246f,1.651124f,1.65685439f,1.66261411f,
1.66840315f,1.67422199f,1.68007076f,1.68594968f,1.69185925f,1.69779944f,1.70377076f,1.7097733f,1.71580744f,1.7218734f,1.72797143f,1.73410201f,
1.74026513f,1.74646139f,1.75269091f,1.75895393f,1.76525092f,1.77158213f,1.77794778f,1.78434825f,1.79078388f,1.79725504f,1.80376184f,1.81030488f,
1.81688428f,1.82350039f,1.8301537f,1.83684444f,1.84357309f,1.85033977f,1.85714507f,1.86398923f,1.87087262f,1.8777957f,1.88475871f,1.89176214f,
1.89880621f,1.90589154f,1.91301847f,1.92018723f,1.92739844f,1.93465245f,1.94194949f,1.94929028f,1.95667505f,1.96410429f,1.97157836f,1.97909784f,
1.98666322f,1.99427474f,2.00193286f,2.00963831f,2.01739144f,2.02519274f,2.03304243f,2.04094148f,2.04889011f,2.05688858f,2.06493807f,2.07303858f,
2.08119059f,2.08939505f,2.0976522f,2.10596251f,2.11432695f,2.12274575f,2.13121939f,2.13974881f,2.14833426f,2.15697646f,2.16567636f,2.17443395f,
2.18325019f,2.1921258f,2.20106125f,2.21005726f,2.2191143f,2.22823334f,2.23741508f,2.24665976f,2.25596857f,2.265342f,2.27478075f,2.28428578f,
2.29385757f,2.30349684f,2.31320453f,2.3229816f,2.33282828f,2.34274578f,2.3527348f,2.36279631f,2.372931f,2.38313961f,2.39342308f,2.40378261f,
2.41421866f,2.42473221f,2.43532443f,2.44599581f,2.45674777f,2.46758127f,2.47849679f,2.48949575f,2.50057912f,2.5117476f,2.52300262f,2.53434515f,
2.54577613f,2.55729675f,2.56890821f,2.58061147f,2.5924077f,2.60429835f,2.61628413f,2.62836671f,2.6405468f,2.65282631f,2.66520596f,2.67768741f,
2.69027162f,2.70296025f,2.71575451f,2.72865582f,2.7416656f,2.7547853f,2.76801634f,2.78136015f,2.7948184f,2.80839252f,2.82208395f,2.83589458f,
2.84982586f,2.86387944f,2.87805724f,2.89236069f,2.90679145f,2.92135167f,2.93604302f,2.95086718f,2.96582603f,2.98092175f,2.99615622f,3.01153135f,
3.02704906f,3.04271173f,3.05852127f,3.07447982f,3.09058952f,3.10685277f,3.12327194f,3.13984895f,3.15658641f,3.17348695f,3.19055271f,3.20778632f,
3.2251904f,3.24276757f,3.26052046f,3.27845192f,3.29656458f,3.3148613f,3.33334517f,3.35201907f,3.37088585f,3.38994884f,3.40921092f,3.42867589f,
3.44834638f,3.46822619f,3.48831868f,3.50862741f,3.52915573f,3.54990768f,3.57088709f,3.59209728f,3.61354256f,3.63522696f,3.65715456f,3.67932963f,
3.70175648f,3.72443938f,3.74738288f,3.77059174f,3.79407072f,3.81782436f,3.84185815f,3.86617684f,3.89078546f,3.91568995f,3.94089532f,3.96640706f,
3.99223137f,4.01837397f,4.04484081f,4.07163811f,4.09877205f,4.12624979f,4.15407705f,4.18226147f,4.21081018f,4.23972988f,4.26902771f,4.29871225f,
4.32879114f,4.359272f,4.39016294f,4.42147303f,4.45321083f,4.48538494f,4.51800489f,4.55108023f,4.58462095f,4.61863613f,4.65313721f,4.68813419f,
4.72363806f,4.75966072f,4.79621267f,4.83330679f,4.87095499f,4.90917015f,4.94796515f,4.98735332f,5.027349f,5.06796646f,5.1092205f,5.15112591f,
5.19369888f,5.23695612f,5.28091335f,5.32558918f,5.37100077f,5.41716671f,5.46410656f,5.51183987f,5.56038713f,5.60976982f,5.66000938f,5.71112967f,
5.76315308f,5.81610489f,5.87000942f,5.92489433f,5.98078537f,6.0377121f,6.09570265f,6.15478802f,6.21499968f,6.27637053f,6.3389349f,6.4027276f,
6.46778584f,6.53414822f,6.60185432f,6.67094564f,6.74146557f,6.8134594f,6.88697433f,6.96205854f,7.038764f,7.11714411f,7.19725466f,7.27915382f,
7.36290264f,7.44856453f,7.53620672f,7.62589931f,7.71771479f,7.81173038f,7.9080267f,8.00668812f,8.10780239f,8.21146393f,8.31777096f,8.42682457f,
8.53873539f,8.65361691f,8.77158928f,8.89277935f,9.01732159f,9.14535809f,9.27703762f,9.4125185f,9.55196953f,9.69556904f,9.843503f,9.99597359f,
10.1531925f,10.3153868f,10.4827967f,10.6556778f,10.8343048f,11.0189695f,11.2099848f,11.4076843f,11.6124258f,11.8245945f,12.0446014f,12.272892f,
12.5099421f,12.7562695f,13.0124283f,13.2790222f,13.5567036f,13.8461781f,14.1482172f,14.4636574f,14.7934122f,15.1384802f,15.4999561f,15.8790398f,
16.2770519f,16.6954498f,17.1358414f,17.6000099f,18.0899372f,18.60783f,19.1561584f,19.7376881f,20.3555317f,21.0132027f,21.7146835f,22.4645081f,
23.2678547f,24.1306705f,25.0598183f,26.0632572f,27.1502743f,28.331768f,29.6206264f,31.0321827f,32.5848465f,34.3008919f,36.2075577f,38.3384743f,
40.7356911f,43.4524727f,46.5572968f,50.1397057f,54.3191032f,59.2583008f,65.1852417f,72.4291763f,81.4839859f,93.1257629f,108.647995f,130.378998f,
162.975433f,217.302963f,325.959259f,651.941284f,30000000.0f,-651.85498f,-325.937347f,-217.293076f,-162.969803f,-130.375336f,-108.645416f,-93.1238327f,
-81.4824905f,-72.4279785f,-65.1842575f,-59.2574768f,-54.3184013f,-50.1390991f,-46.5567665f,-43.4520035f,-40.7352753f,-38.3381004f,-36.2072182f,-34.3005867f,
-32.5845642f,-31.0319252f,-29.620388f,-28.3315468f,-27.1500683f,-26.0630646f,-25.059639f,-24.1305027f,-23.2676964f,-22.4643574f,-21.7145424f,-21.0130672f,
-20.3554039f,-19.7375679f,-19.156044f,-18.6077213f,-18.0898323f,-17.5999088f,-17.1357441f,-16.6953564f,-16.2769623f,-15.8789539f,-15.4998732f,-15.1384001f,
-14.793334f,-14.463582f,-14.1481447f,-13.8461084f,-13.5566349f,-13.2789564f,-13.0123644f,-12.7562075f,-12.509882f,-12.2728329f,-12.0445442f,-11.8245382f,
-11.6123714f,-11.4076319f,-11.2099333f,-11.0189199f,-10.8342562f,-10.6556301f,-10.482749f,-10.315341f,-10.1531477f,-9.99592972f,-9.84346008f,-9.69552612f,
-9.55192852f,-9.41247845f,-9.27699757f,-9.14531898f,-9.01728344f,-8.8927412f,-8.77155209f,-8.65358067f,-8.5387001f,-8.42679024f,-8.31773567f,-8.21143055f,
-8.10776901f,-8.00665474f,-7.90799427f,-7.81169844f,-7.71768332f,-7.62586832f,-7.5361762f,-7.44853449f,-7.36287308f,-7.27912474f,-7.19722605f,-7.11711597f,
-7.03873634f,-6.96203089f,-6.88694668f,-6.81343269f,-6.74143934f,-6.67091942f,-6.60182858f,-6.53412247f,-6.46776056f,-6.40270281f,-6.3389101f,-6.27634621f,
-6.21497583f,-6.15476418f,-6.09567881f,-6.03768873f,-5.98076248f,-5.92487144f,-5.86998701f,-5.81608248f,-5.76313114f,-5.71110773f,-5.65998793f,-5.60974836f,
-5.56036568f,-5.51181841f,-5.46408558f,-5.41714621f,-5.37098026f,-5.32556868f,-5.28089333f,-5.23693609f,-5.19367933f,-5.15110636f,-5.10920095f,-5.06794739f,
-5.02732992f,-4.98733425f,-4.94794607f,-4.90915155f,-4.87093639f,-4.83328867f,-4.79619455f,-4.7596426f,-4.72362041f,-4.68811655f,-4.65311956f,-4.61861897f,
-4.58460331f,-4.55106306f,-4.51798773f,-4.48536777f,-4.45319366f,-4.42145634f,-4.39014626f,-4.35925531f,-4.32877445f,-4.29869604f,-4.26901197f,-4.23971367f,
-4.21079397f,-4.18224573f,-4.15406132f,-4.12623405f,-4.09875631f,-4.07162237f,-4.04482508f,-4.01835871f,-3.99221611f,-3.96639204f,-3.9408803f,-3.91567492f,
-3.89077067f,-3.86616206f,-3.84184361f,-3.81780982f,-3.79405618f,-3.77057743f,-3.74736857f,-3.72442508f,-3.70174217f,-3.67931557f,-3.65714073f,-3.63521314f,
-3.61352873f,-3.59208345f,-3.57087326f,-3.54989409f,-3.52914238f,-3.50861382f,-3.48830533f,-3.46821284f,-3.44833302f,-3.42866254f,-3.40919781f,-3.38993573f,
-3.37087274f,-3.35200596f,-3.3333323f,-3.31484842f,-3.29655194f,-3.27843928f,-3.26050782f,-3.24275494f,-3.225178f,-3.20777392f,-3.19054031f,-3.17347455f,
-3.15657425f,-3.13983679f,-3.12325954f,-3.10684061f,-3.09057736f,-3.07446766f,-3.05850935f,-3.04269981f,-3.02703714f,-3.01151943f,-2.99614453f,-2.98091006f,
-2.96581435f,-2.95085549f,-2.93603134f,-2.92134023f,-2.90678f,-2.89234924f,-2.8780458f,-2.86386824f,-2.84981465f,-2.83588338f,-2.82207274f,-2.80838132f,
-2.7948072f,-2.78134894f,-2.76800513f,-2.75477433f,-2.74165463f,-2.72864485f,-2.71574354f,-2.70294929f,-2.69026089f,-2.67767644f,-2.66519523f,-2.65281558f,
-2.64053631f,-2.62835598f,-2.61627364f,-2.60428762f,-2.59239721f,-2.58060098f,-2.56889772f,-2.5572865f,-2.54576588f,-2.5343349f,-2.52299237f,-2.51173735f,
-2.50056887f,-2.4894855f,-2.47848654f,-2.46757102f,-2.45673776f,-2.44598579f,-2.43531418f,-2.42472219f,-2.41420865f,-2.40377259f,-2.39341331f,-2.3831296f,
-2.37292099f,-2.36278653f,-2.35272503f,-2.34273601f,-2.33281851f,-2.32297182f,-2.31319499f,-2.3034873f,-2.2938478f,-2.28427625f,-2.27477121f,-2.26533246f,
-2.25595903f,-2.24665022f,-2.23740554f,-2.22822404f,-2.21910501f,-2.21004772f,-2.20105171f,-2.1921165f,-2.18324089f,-2.17442465f,-2.16566706f,-2.1569674f,
-2.14832497f,-2.13973951f,-2.13121033f,-2.12273645f,-2.11431789f,-2.10595345f,-2.09764314f,-2.08938599f,-2.08118153f,-2.07302952f,-2.06492901f,-2.05687976f,
-2.04888105f,-2.04093242f,-2.03303361f,-2.02518368f,-2.01738262f,-2.00962949f,-2.00192404f,-1.99426591f,-1.9866544f,-1.97908914f,-1.97156966f,-1.96409559f,
-1.95666635f,-1.94928157f,-1.9419409f,-1.93464375f,-1.92738986f,-1.92017865f,-1.91300988f,-1.90588307f,-1.89879775f,-1.89175355f,-1.88475025f,-1.87778723f,
-1.87086415f,-1.86398077f,-1.85713673f,-1.85033143f,-1.84356475f,-1.8368361f,-1.83014536f,-1.82349217f,-1.81687593f,-1.81029654f,-1.80375361f,-1.79724669f,
-1.79077566f,-1.78434002f,-1.77793956f,-1.7715739f,-1.76524282f,-1.75894582f,-1.75268281f,-1.74645329f,-1.74025714f,-1.7340939f,-1.72796345f,-1.7218653f,
-1.71579933f,-1.7097652f,-1.70376277f,-1.69779146f,-1.69185126f,-1.68594182f,-1.68006277f,-1.67421401f,-1.66839528f,-1.66260612f,-1.65684652f,-1.65111613f,
-1.64541459f,-1.6397419f,-1.63409758f,-1.62848151f,-1.62289345f,-1.61733305f,-1.61180031f,-1.60629475f,-1.60081637f,-1.59536469f,-1.58993971f,-1.5845412f,
-1.5791688f,-1.57382226f,-1.56850159f,-1.56320643f,-1.55793667f,-1.55269194f,-1.54747212f,-1.5422771f,-1.53710663f,-1.53196037f,-1.5268383f,-1.5217402f,
-1.51666582f,-1.51161504f,-1.50658762f,-1.50158334f,-1.49660206f,-1.49164355f,-1.48670781f,-1.48179448f,-1.47690332f,-1.47203445f,-1.4671874f,-1.46236217f,
-1.45755851f,-1.45277631f,-1.44801533f,-1.44327557f,-1.43855667f,-1.43385851f,-1.42918098f,-1.42452395f,-1.4198873f,-1.41527069f,-1.4106741f,-1.40609741f,
-1.4015404f,-1.39700294f,-1.3924849f,-1.38798606f,-1.38350642f,-1.37904572f,-1.37460387f,-1.37018073f,-1.36577606f,-1.36138988f,-1.35702193f,-1.3526721f,
-1.34834039f,-1.34402645f,-1.33973038f,-1.33545184f,-1.33119082f,-1.32694721f,-1.32272077f,-1.31851149f,-1.31431925f,-1.31014383f,-1.30598509f,-1.30184305f,
-1.29771757f,-1.29360843f,-1.2895155f,-1.28543878f,-1.28137815f,-1.27733338f,-1.27330446f,-1.26929128f,-1.26529372f,-1.26131153f,-1.25734484f,-1.25339341f,
-1.24945712f,-1.24553585f,-1.24162948f,-1.23773813f,-1.23386145f,-1.22999942f,-1.22615194f,-1.22231889f,-1.21850014f,-1.21469569f,-1.21090543f,-1.20712912f,
-1.20336688f,-1.19961846f,-1.19588387f,-1.19216287f,-1.18845546f,-1.18476152f,-1.18108106f,-1.17741394f,-1.17375994f,-1.17011917f,-1.16649139f,-1.16287661f,
-1.15927458f,-1.15568542f,-1.15210903f,-1.14854515f,-1.1449939f,-1.14145505f,-1.13792861f,-1.13441443f,-1.13091242f,-1.12742257f,-1.12394476f,-1.12047899f,
-1.11702502f,-1.11358297f,-1.1101526f,-1.10673392f,-1.1033268f,-1.09993112f,-1.09654701f,-1.09317422f,-1.08981264f,-1.08646238f,-1.08312321f,-1.07979524f,
-1.07647812f,-1.07317197f,-1.06987679f,-1.06659234f,-1.06331861f,-1.06005561f,-1.05680311f,-1.05356121f,-1.05032969f,-1.04710865f,-1.04389787f,-1.04069734f,
-1.03750706f,-1.03432703f,-1.0311569f,-1.0279969f,-1.02484679f,-1.02170658f,-1.01857615f,-1.0154556f,-1.0123446f,-1.00924337f,-1.00615168f,-1.00306952f,
-0.999996901f,-0.996933639f,-0.993879735f,-0.99083513f,-0.987799764f,-0.984773576f,-0.981756508f,-0.97874856f,-0.975749552f,-0.972759604f,-0.969778478f,-0.966806293f,
-0.963842809f,-0.960888147f,-0.957942188f,-0.955004871f,-0.952076077f,-0.949155927f,-0.94624418f,-0.943340957f,-0.940446079f,-0.937559545f,-0.934681296f,-0.931811273f,
-0.928949475f,-0.926095784f,-0.923250198f,-0.920412719f,-0.917583168f,-0.914761603f,-0.911947966f,-0.909142137f,-0.906344175f,-0.903553963f,-0.900771499f,-0.897996664f,
-0.895229518f,-0.892469883f,-0.889717877f,-0.886973321f,-0.884236276f,-0.881506562f,-0.878784299f,-0.876069307f,-0.873361647f,-0.870661199f,-0.867968023f,-0.86528194f,
-0.862603009f,-0.859931111f,-0.857266307f,-0.854608476f,-0.851957619f,-0.849313676f,-0.846676588f,-0.844046414f,-0.841422975f,-0.838806331f,-0.836196363f,-0.83359313f,
-0.830996513f,-0.828406572f,-0.825823128f,-0.8232463f,-0.82067591f,-0.818112016f,-0.8155545f,-0.813003421f,-0.81045866f,-0.807920277f,-0.805388153f,-0.802862227f,
-0.80034256f,-0.797829092f,-0.795321763f,-0.792820513f,-0.790325344f,-0.787836254f,-0.785353124f,-0.782876015f,-0.780404806f,-0.777939558f,-0.775480151f,-0.773026586f,
-0.770578861f,-0.768136859f,-0.765700638f,-0.76327014f,-0.760845363f,-0.758426189f,-0.756012619f,-0.75360471f,-0.751202285f,-0.748805463f,-0.746414065f,-0.744028211f,
-0.74164772f,-0.739272714f,-0.736903071f,-0.734538734f,-0.732179761f,-0.729826093f,-0.72747767f,-0.725134432f,-0.7227965f,-0.720463693f,-0.718136013f,-0.715813518f,
-0.713496029f,-0.711183667f,-0.708876371f,-0.706574023f,-0.704276681f,-0.701984346f,-0.699696898f,-0.697414339f,-0.695136726f,-0.692863882f,-0.690595925f,-0.688332736f,
-0.686074317f,-0.683820665f,-0.681571722f,-0.679327488f,-0.677087963f,-0.674853027f,-0.67262274f,-0.670397043f,-0.668175936f,-0.665959358f,-0.663747311f,-0.661539733f,
-0.659336686f,-0.65713805f,-0.654943883f,-0.652754068f,-0.650568664f,-0.648387611f,-0.646210909f,-0.644038498f,-0.641870379f,-0.639706552f,-0.637546897f,-0.635391533f,
-0.633240342f,-0.631093323f,-0.628950477f,-0.626811743f,-0.624677122f,-0.622546554f,-0.620420098f,-0.618297696f,-0.616179287f,-0.614064872f,-0.611954451f,-0.609847963f,
-0.607745469f,-0.605646849f,-0.603552103f,-0.601461291f,-0.599374294f,-0.597291172f,-0.595211804f,-0.593136251f,-0.591064513f,-0.58899647f,-0.586932182f,-0.58487165f,
-0.582814753f,-0.580761552f,-0.578711987f,-0.576666117f,-0.574623823f,-0.572585106f,-0.570549965f,-0.5685184f,-0.566490412f,-0.56446588f,-0.562444925f,-0.560427427f,
-0.558413386f,-0.556402743f,-0.554395616f,-0.552391827f,-0.550391495f,-0.548394501f,-0.546400845f,-0.544410586f,-0.542423606f,-0.540439904f,-0.538459539f,-0.536482453f,
-0.534508586f,-0.532537937f,-0.530570567f,-0.528606355f,-0.526645303f,-0.524687469f,-0.522732735f,-0.520781159f,-0.518832684f,-0.516887307f,-0.51494503f,-0.513005853f,
-0.511069655f,-0.509136558f,-0.50720644f,-0.505279303f,-0.503355145f,-0.501434028f,-0.499515802f,-0.497600526f,-0.4956882f,-0.493778735f,-0.491872191f,-0.489968508f,
-0.488067716f,-0.486169726f,-0.484274596f,-0.482382268f,-0.480492711f,-0.478605986f,-0.476722002f,-0.47484076f,-0.47296229f,-0.471086502f,-0.469213456f,-0.467343092f,
-0.46547541f,-0.463610411f,-0.461748034f,-0.459888309f,-0.458031207f,-0.456176698f,-0.454324812f,-0.452475488f,-0.450628728f,-0.4487845f,-0.446942836f,-0.445103675f,
-0.443267047f,-0.441432923f,-0.439601243f,-0.437772065f,-0.435945332f,-0.434121042f,-0.432299167f,-0.430479705f,-0.428662658f,-0.426847994f,-0.425035715f,-0.42322579f,
-0.42141822f,-0.419612974f,-0.417810053f,-0.416009456f,-0.414211124f,-0.412415117f,-0.410621345f,-0.408829838f,-0.407040596f,-0.405253559f,-0.403468758f,-0.401686192f,
-0.399905771f,-0.398127556f,-0.396351516f,-0.394577652f,-0.392805904f,-0.391036302f,-0.389268816f,-0.387503445f,-0.385740161f,-0.383978963f,-0.382219851f,-0.380462795f,
-0.378707796f,-0.376954824f,-0.375203878f,-0.373454958f,-0.371708035f,-0.369963109f,-0.36822015f,-0.366479158f,-0.364740133f,-0.363003045f,-0.361267895f,-0.359534681f,
-0.357803345f,-0.356073946f,-0.354346395f,-0.352620751f,-0.350896955f,-0.349175036f,-0.347454935f,-0.345736682f,-0.344020247f,-0.34230563f,-0.340592802f,-0.338881761f,
-0.337172508f,-0.335465014f,-0.333759278f,-0.3320553f,-0.330353022f,-0.328652501f,-0.326953679f,-0.325256586f,-0.323561162f,-0.321867436f,-0.32017535f,-0.318484962f,
-0.316796213f,-0.315109074f,-0.313423604f,-0.311739743f,-0.310057491f,-0.308376849f,-0.306697786f,-0.305020273f,-0.303344369f,-0.301670015f,-0.299997211f,-0.298325926f,
-0.296656191f,-0.294987977f,-0.293321252f,-0.291656047f,-0.289992332f,-0.288330078f,-0.286669314f,-0.28501001f,-0.283352137f,-0.281695694f,-0.280040711f,-0.278387159f,
-0.276734978f,-0.275084227f,-0.273434877f,-0.271786869f,-0.27014026f,-0.268495023f,-0.266851127f,-0.265208602f,-0.263567388f,-0.261927515f,-0.260288954f,-0.258651674f,
-0.257015735f,-0.255381048f,-0.253747672f,-0.252115548f,-0.250484705f,-0.248855099f,-0.247226745f,-0.245599613f,-0.243973717f,-0.242349043f,-0.240725562f,-0.239103287f,
-0.237482205f,-0.2358623f,-0.234243572f,-0.232625991f,-0.231009588f,-0.229394317f,-0.227780178f,-0.226167172f,-0.224555284f,-0.222944498f,-0.22133483f,-0.219726235f,
-0.218118742f,-0.216512322f,-0.214906961f,-0.213302657f,-0.211699411f,-0.210097194f,-0.208496019f,-0.206895873f,-0.205296725f,-0.203698605f,-0.202101469f,-0.200505331f,
-0.198910162f,-0.197315976f,-0.195722759f,-0.19413048f,-0.19253917f,-0.190948784f,-0.189359337f,-0.187770814f,-0.186183214f,-0.184596509f,-0.183010697f,-0.181425795f,
-0.179841757f,-0.178258598f,-0.176676303f,-0.175094873f,-0.173514277f,-0.171934545f,-0.170355633f,-0.16877754f,-0.167200267f,-0.165623814f,-0.16404815f,-0.162473276f,
-0.160899192f,-0.159325898f,-0.157753363f,-0.156181574f,-0.154610559f,-0.153040275f,-0.151470736f,-0.149901927f,-0.148333833f,-0.146766454f,-0.145199791f,-0.143633813f,
-0.142068535f,-0.140503928f,-0.138940006f,-0.137376741f,-0.135814145f,-0.134252191f,-0.132690877f,-0.131130204f,-0.129570171f,-0.128010735f,-0.126451924f,-0.124893725f,
-0.123336114f,-0.121779092f,-0.12022265f,-0.118666783f,-0.117111489f,-0.115556747f,-0.114002556f,-0.112448908f,-0.110895798f,-0.109343216f,-0.107791156f,-0.106239609f,
-0.10468857f,-0.103138022f,-0.101587966f,-0.100038402f,-0.0984893069f,-0.0969406739f,-0.0953925103f,-0.0938447937f,-0.0922975317f,-0.0907507017f,-0.0892043039f,-0.0876583233f,
-0.0861127675f,-0.0845676139f,-0.0830228627f,-0.0814785063f,-0.07993453f,-0.078390941f,-0.0768477172f,-0.0753048584f,-0.0737623572f,-0.0722202063f,-0.0706783906f,-0.0691369176f,
-0.067595765f,-0.0660549402f,-0.0645144209f,-0.0629742071f,-0.0614342913f,-0.0598946661f,-0.058355324f,-0.0568162575f,-0.0552774593f,-0.0537389219f,-0.0522006378f,-0.0506625995f,
-0.0491247997f,-0.0475872345f,-0.0460498929f,-0.0445127673f,-0.0429758504f,-0.0414391384f,-0.03990262f,-0.0383662917f,-0.0368301459f,-0.0352941677f,-0.0337583609f,-0.0322227105f,
-0.0306872148f,-0.0291518606f,-0.0276166461f,-0.0260815602f,-0.0245465972f,-0.0230117496f,-0.021477012f,-0.0199423749f,-0.018407831f,-0.0168733727f,-0.0153389955f,-0.0138046909f,
-0.0122704497f,-0.0107362671f,-0.00920213573f,-0.00766804675f,-0.00613399409f,-0.0045999703f,-0.00306596817f,-0.00153198047f};
static const float t_exp5_lo[2048] = {
0.999997973f,1.00169253f,1.00338984f,1.00509012f,1.00679326f,1.00849926f,1.01020825f,1.01192009f,1.0136348f,1.01535237f,1.01707292f,1.01879632f,
1.02052271f,1.02225196f,1.02398419f,1.0257194f,1.02745748f,1.02919853f,1.03094256f,1.03268945f,1.03443933f,1.0361923f,1.03794813f,1.03970695f,
1.04146874f,1.04323351f,1.04500127f,1.046772f,1.04854584f,1.05032253f,1.05210233f,1.05388522f,1.05567098f,1.05745983f,1.05925167f,1.0610466f,
1.06284463f,1.06464565f,1.06644964f,1.06825674f,1.07006693f,1.07188022f,1.07369649f,1.07551587f,1.07733834f,1.07916391f,1.08099258f,1.08282435f,
1.08465922f,1.08649719f,1.08833826f,1.09018254f,1.09202981f,1.0938803f,1.09573388f,1.09759057f,1.09945047f,1.10131359f,1.10317969f,1.10504913f,
1.10692155f,1.10879731f,1.11067617f,1.11255825f,1.11444342f,1.11633193f,1.11822355f,1.12011838f,1.12201643f,1.1239177f,1.12582219f,1.12772989f,
1.12964094f,1.13155508f,1.13347256f,1.13539326f,1.13731718f,1.13924432f,1.14117479f,1.14310861f,1.14504564f,1.14698589f,1.14892948f,1.15087628f,
1.15282655f,1.15478003f,1.15673673f,1.15869689f,1.16066027f,1.1626271f,1.16459715f,1.16657054f,1.16854739f,1.17052746f,1.17251098f,1.17449784f,
1.17648804f,1.17848158f,1.18047857f,1.1824789f,1.18448257f,1.1864897f,1.18850029f,1.19051421f,1.19253147f,1.1945523f,1.19657648f,1.19860411f,
1.20063519f,1.20266962f,1.20470762f,1.20674896f,1.20879388f,1.21084213f,1.21289396f,1.21494925f,1.21700799f,1.2190702f,1.22113597f,1.22320521f,
1.2252779f,1.22735417f,1.22943389f,1.2315172f,1.23360407f,1.23569441f,1.23778832f,1.23988569f,1.24198675f,1.24409127f,1.24619949f,1.24831116f,
1.25042641f,1.25254524f,1.25466776f,1.25679386f,1.25892341f,1.26105666f,1.26319361f,1.26533413f,1.26747823f,1.26962602f,1.27177739f,1.27393246f,
1.2760911f,1.27825344f,1.28041947f,1.2825892f,1.2847625f,1.28693962f,1.28912032f,1.29130483f,1.29349291f,1.29568481f,1.29788029f,1.30007958f,
1.30228257f,1.30448937f,1.30669975f,1.30891407f,1.31113195f,1.31335378f,1.31557918f,1.31780851f,1.32004154f,1.32227838f,1.32451904f,1.32676339f,
1.32901168f,1.33126366f,1.33351946f,1.33577919f,1.33804262f,1.34030998f,1.34258115f,1.34485626f,1.34713507f,1.34941781f,1.35170448f,1.35399497f,
1.35628927f,1.3585875f,1.36088967f,1.36319578f,1.3655057f,1.36781955f,1.37013733f,1.37245905f,1.37478471f,1.3771143f,1.37944782f,1.38178539f,
1.38412678f,1.38647223f,1.3888216f,1.39117503f,1.3935324f,1.39589369f,1.39825904f,1.40062845f,1.40300179f,1.4053793f,1.40776074f,1.41014612f,
1.41253567f,1.41492927f,1.41732681f,1.41972852f,1.42213428f,1.4245441f,1.42695796f,1.42937601f,1.4317981f,1.43422437f,1.43665469f,1.43908906f,
1.44152761f,1.44397032f,1.44641709f,1.44886816f,1.45132327f,1.45378256f,1.45624602f,1.45871365f,1.46118546f,1.46366143f,1.46614158f,1.46862602f,
1.47111464f,1.47360742f,1.4761045f,1.47860575f,1.48111129f,1.48362112f,1.48613513f,1.48865342f,1.49117589f,1.49370277f,1.49623382f,1.49876916f,
1.50130892f,1.50385284f,1.50640118f,1.50895381f,1.51151073f,1.51407206f,1.51663768f,1.5192076f,1.52178192f,1.52436066f,1.52694368f,1.52953112f,
1.53212297f,1.53471911f,1.53731978f,1.53992474f,1.54253411f,1.54514802f,1.54776633f,1.55038905f,1.55301619f,1.55564773f,1.55828381f,1.56092441f,
1.56356943f,1.56621885f,1.56887281f,1.5715313f,1.57419431f,1.57686186f,1.57953382f,1.5822103f,1.58489144f,1.5875771f,1.59026718f,1.59296191f,
1.59566128f,1.59836519f,1.60107362f,1.60378659f,1.60650432f,1.60922647f,1.61195338f,1.61468482f,1.61742091f,1.62016165f,1.62290704f,1.62565708f,
1.62841177f,1.63117123f,1.63393521f,1.63670397f,1.63947737f,1.64225554f,1.64503837f,1.64782584f,1.65061808f,1.65341508f,1.65621686f,1.6590234f,
1.6618346f,1.66465056f,1.66747141f,1.67029691f,1.67312729f,1.67596245f,1.67880237f,1.68164706f,1.68449664f,1.68735111f,1.69021034f,1.69307446f,
1.69594336f,1.69881713f,1.7016958f,1.70457935f,1.70746779f,1.71036112f,1.71325934f,1.71616256f,1.71907055f,1.72198355f,1.72490144f,1.72782433f,
1.73075223f,1.73368502f,1.73662269f,1.73956549f,1.74251318f,1.74546587f,1.74842358f,1.75138628f,1.75435412f,1.75732684f,1.76030469f,1.76328754f,
1.76627541f,1.76926839f,1.77226651f,1.77526963f,1.77827787f,1.78129113f,1.78430963f,1.78733313f,1.79036176f,1.79339552f,1.79643452f,1.79947865f,
1.80252779f,1.80558228f,1.80864179f,1.81170666f,1.81477654f,1.81785178f,1.82093215f,1.82401776f,1.8271085f,1.83020461f,1.83330595f,1.83641243f,
1.83952427f,1.84264135f,1.8457638f,1.8488915f,1.85202444f,1.85516274f,1.85830629f,1.8614552f,1.86460948f,1.86776912f,1.87093401f,1.87410438f,
1.87728012f,1.88046122f,1.88364768f,1.88683951f,1.89003682f,1.8932395f,1.89644754f,1.89966118f,1.90288019f,1.90610456f,1.90933454f,1.91256988f,
1.91581082f,1.91905713f,1.92230904f,1.92556643f,1.92882931f,1.93209779f,1.93537176f,1.9386512f,1.94193637f,1.94522691f,1.94852316f,1.95182502f,
1.95513237f,1.95844543f,1.96176398f,1.96508825f,1.96841812f,1.9717536f,1.9750948f,1.9784416f,1.98179412f,1.98515224f,1.98851609f,1.99188566f,
1.99526095f,1.99864197f,2.0020287f,2.00542116f,2.00881934f,2.01222348f,2.01563311f,2.01904869f,2.02247f,2.02589703f,2.02933002f,2.03276873f,
2.03621316f,2.03966355f,2.04311991f,2.04658198f,2.05005002f,2.05352378f,2.0570035f,2.06048918f,2.06398058f,2.06747818f,2.0709815f,2.07449079f,
2.07800603f,2.08152723f,2.0850544f,2.08858752f,2.09212685f,2.09567189f,2.0992229f,2.1027801f,2.10634327f,2.10991263f,2.11348796f,2.11706924f,
2.12065673f,2.12425017f,2.12784958f,2.13145542f,2.13506722f,2.13868499f,2.14230895f,2.14593935f,2.14957547f,2.15321803f,2.15686679f,2.16052151f,
2.16418266f,2.16784978f,2.17152333f,2.17520285f,2.1788888f,2.18258095f,2.18627954f,2.18998408f,2.19369507f,2.19741225f,2.20113587f,2.20486569f,
2.20860195f,2.21234441f,2.2160933f,2.21984839f,2.22361016f,2.22737789f,2.2311523f,2.23493314f,2.23872018f,2.24251366f,2.24631357f,2.25012016f,
2.25393295f,2.25775218f,2.26157808f,2.26541042f,2.2692492f,2.27309442f,2.27694607f,2.2808044f,2.2846694f,2.28854084f,2.29241872f,2.29630327f,
2.3001945f,2.30409217f,2.30799651f,2.31190729f,2.31582499f,2.31974912f,2.32367992f,2.32761741f,2.33156157f,2.3355124f,2.33947015f,2.34343433f,
2.34740543f,2.35138297f,2.35536742f,2.35935879f,2.36335659f,2.36736131f,2.37137294f,2.37539124f,2.37941647f,2.38344836f,2.38748717f,2.39153266f,
2.3955853f,2.39964461f,2.40371084f,2.40778399f,2.41186404f,2.41595101f,2.4200449f,2.4241457f,2.42825341f,2.43236804f,2.43648982f,2.44061852f,
2.44475412f,2.44889665f,2.45304632f,2.45720315f,2.46136689f,2.46553779f,2.4697156f,2.47390056f,2.47809267f,2.48229194f,2.48649812f,2.49071145f,
2.49493217f,2.49915981f,2.5033946f,2.50763679f,2.51188588f,2.51614237f,2.52040601f,2.5246768f,2.52895498f,2.53324032f,2.53753281f,2.54183269f,
2.54613996f,2.55045438f,2.55477619f,2.5591054f,2.56344175f,2.5677855f,2.57213664f,2.57649517f,2.58086109f,2.5852344f,2.58961511f,2.5940032f,
2.59839892f,2.6028018f,2.60721231f,2.61163044f,2.61605573f,2.62048864f,2.62492919f,2.62937713f,2.63383269f,2.63829565f,2.64276648f,2.64724469f,
2.6517303f,2.65622377f,2.66072488f,2.66523337f,2.66974974f,2.67427373f,2.67880511f,2.6833446f,2.68789148f,2.69244623f,2.69700861f,2.70157862f,
2.70615649f,2.71074224f,2.71533561f,2.71993661f,2.72454572f,2.72916245f,2.73378706f,2.73841953f,2.74305987f,2.74770784f,2.75236392f,2.75702786f,
2.76169968f,2.76637936f,2.77106714f,2.7757628f,2.78046632f,2.78517795f,2.78989744f,2.79462481f,2.79936051f,2.80410409f,2.80885553f,2.81361532f,
2.81838298f,2.82315874f,2.82794261f,2.83273458f,2.83753467f,2.84234309f,2.84715939f,2.85198402f,2.85681677f,2.86165762f,2.86650658f,2.87136412f,
2.87622952f,2.88110352f,2.88598537f,2.89087582f,2.89577436f,2.9006815f,2.90559673f,2.91052032f,2.91545224f,2.92039251f,2.92534113f,2.93029809f,
2.93526363f,2.94023728f,2.94521976f,2.95021033f,2.95520949f,2.96021724f,2.96523333f,2.970258f,2.97529101f,2.98033285f,2.98538303f,2.9904418f,
2.99550915f,3.00058508f,3.00566959f,3.01076269f,3.01586461f,3.02097487f,3.02609396f,3.03122187f,3.03635812f,3.04150343f,3.04665732f,3.0518198f,
3.0569911f,3.06217122f,3.06736016f,3.07255793f,3.07776451f,3.08297968f,3.08820391f,3.09343696f,3.09867883f,3.10392952f,3.10918927f,3.11445785f,
3.11973524f,3.1250217f,3.13031697f,3.13562131f,3.14093471f,3.14625716f,3.15158844f,3.15692902f,3.16227841f,3.16763687f,3.17300463f,3.1783812f,
3.18376708f,3.18916202f,3.19456601f,3.19997931f,3.20540166f,3.21083331f,3.21627402f,3.22172403f,3.22718334f,3.23265195f,3.23812962f,3.24361682f,
3.24911308f,3.25461888f,3.26013374f,3.26565814f,3.27119184f,3.27673483f,3.28228736f,3.28784919f,3.29342055f,3.29900122f,3.30459142f,3.31019115f,
3.31580043f,3.321419f,3.32704735f,3.33268499f,3.33833218f,3.34398913f,3.34965563f,3.35533166f,3.36101723f,3.36671257f,3.37241745f,3.3781321f,
3.3838563f,3.38959026f,3.39533401f,3.40108752f,3.40685081f,3.41262364f,3.41840649f,3.42419887f,3.43000126f,3.43581343f,3.44163561f,3.44746757f,
3.4533093f,3.4591608f,3.46502256f,3.4708941f,3.47677541f,3.48266697f,3.48856831f,3.49447989f,3.50040126f,3.50633287f,3.51227427f,3.51822591f,
3.52418756f,3.53015947f,3.53614116f,3.54213333f,3.54813552f,3.55414796f,3.56017041f,3.56620312f,3.57224607f,3.57829928f,3.58436298f,3.5904367f,
3.59652066f,3.60261512f,3.60871983f,3.61483479f,3.62096024f,3.62709594f,3.63324213f,3.63939857f,3.64556575f,3.65174317f,3.65793109f,3.6641295f,
3.67033839f,3.67655778f,3.6827879f,3.68902826f,3.6952796f,3.70154119f,3.7078135f,3.71409655f,3.72039008f,3.72669435f,3.73300934f,3.73933482f,
3.74567127f,3.75201821f,3.75837612f,3.76474476f,3.77112412f,3.77751446f,3.78391552f,3.79032731f,3.79675007f,3.80318379f,3.80962825f,3.81608391f,
3.8225503f,3.82902765f,3.83551598f,3.84201527f,3.84852552f,3.85504699f,3.86157942f,3.86812305f,3.87467766f,3.88124323f,3.88782001f,3.89440799f,
3.90100718f,3.90761757f,3.91423893f,3.92087173f,3.92751575f,3.93417096f,3.94083738f,3.94751525f,3.95420432f,3.96090484f,3.96761656f,3.97433972f,
3.98107433f,3.98782039f,3.99457788f,4.00134659f,4.00812721f,4.0149188f,4.02172232f,4.02853727f,4.03536367f,4.04220152f,4.04905081f,4.05591202f,
4.06278515f,4.06966925f,4.07656574f,4.08347321f,4.09039307f,4.09732389f,4.10426712f,4.11122179f,4.11818838f,4.12516689f,4.13215685f,4.13915873f,
4.14617252f,4.15319824f,4.16023588f,4.16728592f,4.1743474f,4.1814208f,4.18850613f,4.19560385f,4.20271301f,4.20983458f,4.21696854f,4.22411394f,
4.23127174f,4.23844194f,4.24562407f,4.25281811f,4.26002455f,4.26724339f,4.27447414f,4.2817173f,4.28897285f,4.29624081f,4.30352068f,4.31081295f,
4.31811762f,4.32543468f,4.33276415f,4.34010649f,4.34746075f,4.3548274f,4.36220694f,4.36959887f,4.37700319f,4.38441992f,4.39184952f,4.39929152f,
4.40674591f,4.41421318f,4.42169333f,4.42918587f,4.43669128f,4.4442091f,4.45174026f,4.45928383f,4.46683979f,4.4744091f,4.48199081f,4.48958588f,
4.49719334f,4.50481415f,4.51244736f,4.52009392f,4.52775335f,4.53542566f,4.54311085f,4.55080938f,4.55852079f,4.56624508f,4.57398272f,4.5817337f,
4.58949709f,4.5972743f,4.60506439f,4.61286783f,4.62068415f,4.62851429f,4.63635731f,4.64421368f,4.6520834f,4.65996647f,4.66786289f,4.67577267f,
4.68369579f,4.69163227f,4.6995821f,4.70754576f,4.71552277f,4.72351313f,4.73151731f,4.73953485f,4.74756622f,4.75561094f,4.76366949f,4.77174139f,
4.77982759f,4.78792667f,4.79604006f,4.80416727f,4.81230783f,4.82046223f,4.82863045f,4.83681297f,4.84500885f,4.85321903f,4.86144257f,4.8696804f,
4.87793207f,4.88619804f,4.89447784f,4.90277147f,4.91107941f,4.91940117f,4.92773724f,4.93608713f,4.94445133f,4.95282984f,4.96122265f,4.96962929f,
4.97805071f,4.98648596f,4.99493551f,5.00339985f,5.01187801f,5.02037048f,5.02887774f,5.03739929f,5.04593515f,5.0544858f,5.06305075f,5.07163f,
5.08022404f,5.08883238f,5.0974555f,5.10609341f,5.11474562f,5.12341261f,5.13209438f,5.14079046f,5.1495018f,5.15822792f,5.16696835f,5.17572403f,
5.1844945f,5.19327927f,5.20207977f,5.21089458f,5.21972466f,5.22856951f,5.23742914f,5.24630404f,5.25519419f,5.26409912f,5.27301931f,5.28195429f,
5.290905f,5.29987049f,5.30885124f,5.31784678f,5.32685804f,5.33588457f,5.34492636f,5.3539834f,5.36305571f,5.37214375f,5.38124657f,5.39036512f,
5.39949942f,5.40864897f,5.41781378f,5.42699432f,5.43619061f,5.44540215f,5.45462942f,5.46387243f,5.47313118f,5.48240566f,5.4916954f,5.50100136f,
5.51032257f,5.51966f,5.52901316f,5.53838205f,5.54776716f,5.55716801f,5.56658459f,5.57601738f,5.58546591f,5.59493065f,5.60441113f,5.61390781f,
5.62342072f,5.63294983f,5.64249516f,5.65205622f,5.66163349f,5.67122746f,5.68083763f,5.69046354f,5.70010614f,5.70976496f,5.71944046f,5.72913218f,
5.7388401f,5.74856472f,5.75830555f,5.76806355f,5.77783728f,5.78762817f,5.79743528f,5.80725908f,5.81709957f,5.82695675f,5.83683062f,5.84672117f,
5.85662842f,5.86655283f,5.87649345f,5.88645124f,5.8964262f,5.90641785f,5.91642618f,5.92645168f,5.93649435f,5.94655371f,5.95663023f,5.96672392f,
5.9768343f,5.98696232f,5.99710703f,6.00726938f,6.0174489f,6.02764559f,6.03785944f,6.04809046f,6.05833912f,6.06860542f,6.07888842f,6.08918953f,
6.09950733f,6.10984325f,6.12019634f,6.13056707f,6.14095545f,6.15136147f,6.16178513f,6.17222643f,6.18268538f,6.19316196f,6.2036562f,6.21416855f,
6.22469854f,6.23524618f,6.24581194f,6.25639582f,6.26699734f,6.2776165f,6.28825426f,6.29890966f,6.30958319f,6.32027483f,6.33098507f,6.34171295f,
6.35245895f,6.36322308f,6.37400579f,6.38480663f,6.39562559f,6.40646315f,6.4173193f,6.42819357f,6.43908596f,6.44999743f,6.46092701f,6.47187471f,
6.48284149f,6.49382687f,6.50483084f,6.5158534f,6.52689457f,6.53795433f,6.54903316f,6.5601306f,6.57124662f,6.58238173f,6.5935359f,6.60470867f,
6.61590052f,6.62711096f,6.63834095f,6.64958954f,6.66085768f,6.67214441f,6.68345022f,6.69477558f,6.70612001f,6.71748352f,6.72886658f,6.74026871f,
6.75169039f,6.76313114f,6.77459145f,6.78607082f,6.79756975f,6.80908871f,6.82062674f,6.83218431f,6.84376144f,6.8553586f,6.86697483f,6.87861109f,
6.8902669f,6.90194273f,6.91363811f,6.92535353f,6.93708849f,6.94884348f,6.9606185f,6.97241306f,6.98422813f,6.99606323f,7.00791788f,7.01979303f,
7.03168821f,7.04360342f,7.05553865f,7.06749439f,7.07947063f,7.0914669f,7.1034832f,7.11552048f,7.12757778f,7.13965559f,7.1517539f,7.16387272f,
7.17601204f,7.18817186f,7.20035219f,7.21255302f,7.22477484f,7.23701763f,7.24928093f,7.26156473f,7.27386951f,7.28619528f,7.29854202f,7.31090927f,
7.3232975f,7.33570719f,7.34813786f,7.36058903f,7.37306166f,7.38555574f,7.39807034f,7.41060638f,7.42316389f,7.43574286f,7.4483428f,7.46096373f,
7.47360659f,7.4862709f,7.4989562f,7.51166344f,7.52439213f,7.53714228f,7.54991388f,7.56270742f,7.5755229f,7.58835936f,7.60121822f,7.61409855f,
7.62700081f,7.63992453f,7.65287066f,7.66583872f,7.67882824f,7.69184017f,7.70487452f,7.71793032f,7.73100853f,7.74410868f,7.75723124f,7.77037621f,
7.78354311f,7.79673243f,7.80994415f,7.82317829f,7.83643436f,7.84971333f,7.86301517f,7.87633896f,7.88968563f,7.90305471f,7.91644669f,7.92986107f,
7.94329834f,7.9567585f,7.97024107f,7.98374701f,7.99727535f,8.01082706f,8.02440166f,8.03799915f,8.05161953f,8.06526279f,8.0789299f,8.0926199f,
8.10633278f,8.12006855f,8.13382816f,8.14761162f,8.16141796f,8.17524719f,8.18910027f,8.20297718f,8.21687698f,8.23080063f,8.24474812f,8.25871849f,
8.27271366f,8.28673172f,8.30077362f,8.31483936f,8.32892895f,8.34304237f,8.35717964f,8.37134075f,8.38552666f,8.39973545f,8.41396904f,8.42822647f,
8.4425087f,8.45681477f,8.47114468f,8.48549938f,8.49987793f,8.51428127f,8.52870846f,8.54316044f,8.55763721f,8.57213879f,8.5866642f,8.60121441f,
8.61578941f,8.63038921f,8.64501286f,8.65966225f,8.67433643f,8.68903446f,8.70375824f,8.71850681f,8.73328114f,8.7480793f,8.76290321f,8.77775192f,
8.79262638f,8.80752563f,8.82244968f,8.83739948f,8.85237503f,8.86737537f,8.88240147f,8.89745235f,8.91252899f,8.92763138f,8.94275951f,8.9579134f,
8.97309303f,8.98829746f,9.00352859f,9.01878548f,9.03406811f,9.04937649f,9.06471062f,9.0800705f,9.09545708f,9.11086941f,9.12630749f,9.14177227f,
9.15726376f,9.17278004f,9.18832397f,9.20389366f,9.21949005f,9.23511219f,9.25076103f,9.26643658f,9.28213882f,9.29786777f,9.31362343f,9.32940483f,
9.34521389f,9.36104965f,9.37691212f,9.39280128f,9.40871716f,9.42466068f,9.44063091f,9.45662785f,9.47265244f,9.48870468f,9.50478268f,9.52088928f,
9.53702259f,9.5531826f,9.56937122f,9.58558655f,9.60182953f,9.61809921f,9.63439751f,9.65072346f,9.66707706f,9.68345737f,9.69986629f,9.71630287f,
9.73276711f,9.74925995f,9.7657795f,9.78232861f,9.79890442f,9.81550884f,9.83214092f,9.84880257f,9.86549091f,9.88220787f,9.89895344f,9.91572762f,
9.9325304f,9.94936085f,9.9662199f,9.98310852f,10.0000248f,10.0169697f,10.0339441f,10.0509462f,10.0679779f,10.0850382f,10.1021271f,10.1192455f,
10.1363926f,10.1535692f,10.1707745f,10.1880093f,10.2052727f,10.2225657f,10.2398882f,10.2572393f,10.274621f,10.2920313f,10.3094711f,10.3269405f,
10.3444395f,10.361969f,10.3795271f,10.3971157f,10.4147339f,10.4323816f,10.4500589f,10.4677668f,10.4855051f,10.503273f,10.5210705f,10.5388985f,
10.556757f,10.574646f,10.5925646f,10.6105137f,10.6284933f,10.6465034f,10.6645441f,10.6826153f,10.700717f,10.7188501f,10.7370129f,10.7552071f,
10.7734318f,10.791688f,10.8099747f,10.8282919f,10.8466406f,10.8650208f,10.8834314f,10.9018736f,10.9203472f,10.9388514f,10.9573879f,10.975955f,
10.9945545f,11.0131845f,11.031847f,11.05054f,11.0692654f,11.0880222f,11.1068115f,11.1256323f,11.1444845f,11.1633692f,11.1822853f,11.2012339f,
11.2202148f,11.2392273f,11.2582722f,11.2773495f,11.2964592f,11.3156013f,11.3347759f,11.3539829f,11.3732224f,11.3924942f,11.4117994f,11.4311371f,
11.4505072f,11.4699097f,11.4893456f,11.5088148f,11.5283165f,11.5478516f,11.56742f,11.5870209f,11.6066551f,11.6263227f,11.6460238f,11.6657581f,
11.6855259f,11.705327f,11.7251616f,11.7450304f,11.7649326f,11.7848682f,11.8048382f,11.8248415f,11.8448792f,11.8649502f,11.8850555f,11.9051952f,
11.9253683f,11.9455767f,11.9658184f,11.9860945f,12.0064049f,12.0267496f,12.0471296f,12.067544f,12.0879927f,12.1084757f,12.128993f,12.1495466f,
12.1701336f,12.1907558f,12.2114134f,12.2321062f,12.2528334f,12.2735958f,12.2943935f,12.3152275f,12.3360958f,12.3569994f,12.3779383f,12.3989124f,
12.4199228f,12.4409685f,12.4620504f,12.4831676f,12.5043201f,12.5255089f,12.5467339f,12.5679941f,12.5892906f,12.6106234f,12.6319923f,12.6533976f,
12.674839f,12.6963167f,12.7178307f,12.7393808f,12.7609682f,12.7825918f,12.8042526f,12.8259497f,12.847683f,12.8694534f,12.8912611f,12.913105f,
12.9349871f,12.9569054f,12.9788609f,13.0008535f,13.0228844f,13.0449514f,13.0670567f,13.0891991f,13.1113787f,13.1335964f,13.1558514f,13.1781435f,
13.2004747f,13.2228432f,13.2452488f,13.2676935f,13.2901754f,13.3126965f,13.3352547f,13.357851f,13.3804865f,13.4031601f,13.4258718f,13.4486217f,
13.4714108f,13.4942389f,13.5171051f,13.5400095f,13.562953f,13.5859356f,13.6089573f,13.6320181f,13.655118f,13.678257f,13.7014341f,13.7246523f,
13.7479086f,13.7712049f,13.7945404f,13.817915f,13.8413296f,13.8647842f,13.888278f,13.9118118f,13.9353857f,13.9589996f,13.9826536f,14.0063467f,
14.0300808f,14.0538549f,14.0776701f,14.1015244f,14.1254196f,14.1493559f,14.1733322f,14.1973486f,14.221406f,14.2455044f,14.2696438f,14.2938242f,
14.3180447f,14.3423071f,14.3666105f,14.390955f,14.4153404f,14.4397678f,14.4642363f,14.4887457f,14.5132971f,14.5378904f,14.5625248f,14.5872011f,
14.6119194f,14.6366796f,14.6614819f,14.686326f,14.7112122f,14.7361403f,14.7611113f,14.7861242f,14.8111792f,14.836277f,14.8614168f,14.8866005f,
14.9118261f,14.9370937f,14.9624052f,14.9877596f,15.0131559f,15.0385962f,15.0640793f,15.0896053f,15.1151752f,15.1407881f,15.1664448f,15.1921444f,
15.2178869f,15.2436743f,15.2695045f,15.2953796f,15.3212976f,15.3472595f,15.3732662f,15.3993158f,15.4254103f,15.4515495f,15.4777317f,15.5039597f,
15.5302305f,15.5565472f,15.5829077f,15.609313f,15.6357632f,15.6622581f,15.6887989f,15.7153835f,15.742013f,15.7686882f,15.7954082f,15.8221741f,
15.8489847f,15.8758411f,15.9027433f,15.9296904f,15.9566841f,15.9837227f,16.010807f,16.0379372f,16.065115f,16.0923367f,16.119606f,16.1469212f,
16.1742821f,16.2016888f,16.2291431f,16.2566433f,16.2841911f,16.3117847f,16.339426f,16.3671131f,16.3948479f,16.4226284f,16.4504566f,16.4783325f,
16.5062542f,16.5342255f,16.5622425f,16.5903072f,16.6184196f,16.6465797f,16.6747875f,16.703043f,16.731348f,16.7596989f,16.7880993f,16.8165455f,
16.8450413f,16.8735867f,16.9021778f,16.9308205f,16.9595089f,16.9882469f,17.0170345f,17.0458698f,17.0747547f,17.1036873f,17.1326694f,17.1617012f,
17.1907825f,17.2199116f,17.2490921f,17.2783203f,17.3076f,17.3369274f,17.3663044f,17.3957329f,17.425209f,17.4547367f,17.484314f,17.5139408f,
17.5436192f,17.5733471f,17.6031246f,17.6329536f,17.6628342f,17.6927643f,17.722744f,17.7527752f,17.7828579f,17.8129902f,17.8431759f,17.8734112f,
17.903698f,17.9340363f,17.964426f,17.9948654f,18.0253582f,18.0559025f,18.0864983f,18.1171474f,18.1478462f,18.1785984f,18.2094021f,18.2402592f,
18.2711678f,18.3021278f,18.3331413f,18.3642063f,18.3953247f,18.4264965f,18.4577198f,18.4889965f,18.5203266f,18.5517101f,18.5831451f,18.6146355f,
18.6461773f,18.6777744f,18.709425f,18.741127f,18.7728844f,18.8046951f,18.8365612f,18.8684788f,18.9004517f,18.9324799f,18.9645615f,18.9966965f,
19.0288868f,19.0611305f,19.0934315f,19.1257839f,19.1581936f,19.1906567f,19.223177f,19.2557507f,19.2883797f,19.321064f,19.3538036f,19.3865986f,
19.4194508f,19.4523563f,19.4853191f,19.5183372f,19.5514107f,19.5845413f,19.6177273f,19.6509705f,19.684269f,19.7176247f,19.7510357f,19.7845039f,
19.8180294f,19.8516121f,19.8852501f,19.9189453f,19.9526997f,19.9865093f,20.0203762f,20.0543022f,20.0882835f,20.122324f,20.1564217f,20.1905766f,
20.2247906f,20.2590618f,20.2933903f,20.3277779f,20.3622227f,20.3967266f,20.4312897f,20.4659119f,20.5005913f,20.5353298f,20.5701275f,20.6049843f,
20.6398983f,20.6748734f,20.7099075f,20.7450008f,20.7801533f,20.8153648f,20.8506374f,20.8859692f,20.92136f,20.9568119f,20.9923248f,21.027895f,
21.0635281f,21.0992203f,21.1349735f,21.1707859f,21.2066612f,21.2425957f,21.2785912f,21.3146496f,21.3507671f,21.3869457f,21.4231873f,21.4594879f,
21.4958515f,21.5322762f,21.5687637f,21.6053123f,21.641922f,21.6785946f,21.7153301f,21.7521267f,21.7889862f,21.8259087f,21.8628922f,21.8999386f,
21.937048f,21.9742222f,22.0114574f,22.0487556f,22.0861187f,22.1235428f,22.1610317f,22.1985836f,22.2362003f,22.27388f,22.3116226f,22.3494301f,
22.3873024f,22.4252377f,22.4632378f,22.5013008f,22.5394306f,22.5776234f,22.615881f,22.6542053f,22.6925926f,22.7310448f,22.7695637f,22.8081474f,
22.846796f,22.8855095f,22.9242897f,22.9631348f,23.0020466f,23.0410233f,23.0800667f,23.1191769f,23.1583519f,23.1975956f,23.2369041f,23.2762794f,
23.3157215f,23.3552303f,23.3948059f,23.4344482f,23.4741573f,23.5139351f,23.5537796f,23.5936928f,23.6336727f,23.6737194f,23.7138348f,23.7540188f,
23.7942696f,23.8345909f,23.8749771f,23.9154339f,23.9559593f,23.9965534f,24.0372162f,24.0779476f,24.1187477f,24.1596165f,24.2005558f,24.2415638f,
24.2826424f,24.3237896f,24.3650055f,24.4062939f,24.447649f,24.4890766f,24.5305748f,24.5721416f,24.6137791f,24.6554871f,24.6972675f,24.7391167f,
24.7810383f,24.8230286f,24.8650913f,24.9072266f,24.9494324f,24.9917088f,25.0340576f,25.076479f,25.1189709f,25.1615353f,25.2041721f,25.2468815f,
25.2896614f,25.3325157f,25.3754425f,25.4184418f,25.4615135f,25.5046577f,25.5478764f,25.5911674f,25.6345329f,25.6779709f,25.7214813f,25.7650681f,
25.8087273f,25.852459f,25.8962669f,25.9401493f,25.9841042f,26.0281353f,26.0722408f,26.1164207f,26.160675f,26.2050037f,26.2494087f,26.29389f,
26.3384438f,26.3830757f,26.4277821f,26.4725647f,26.5174217f,26.5623569f,26.6073666f,26.6524525f,26.6976166f,26.7428551f,26.7881718f,26.8335648f,
26.879034f,26.9245815f,26.9702053f,27.0159073f,27.0616856f,27.107542f,27.1534767f,27.1994877f,27.2455788f,27.2917461f,27.3379936f,27.3843174f,
27.4307213f,27.4772015f,27.5237637f,27.5704021f,27.6171207f,27.6639175f,27.7107944f,27.7577515f,27.8047867f,27.8519039f,27.8990993f,27.9463749f,
27.9937286f,28.0411644f,28.0886822f,28.1362782f,28.1839561f,28.2317142f,28.2795525f,28.3274727f,28.3754749f,28.4235573f,28.4717216f,28.5199661f,
28.5682945f,28.616703f,28.6651955f,28.713768f,28.7624245f,28.8111629f,28.8599834f,28.9088879f,28.9578743f,29.0069427f,29.056097f,29.1053314f,
29.1546516f,29.2040539f,29.2535419f,29.303112f,29.352766f,29.4025059f,29.4523277f,29.5022354f,29.552227f,29.6023045f,29.6524658f,29.702713f,
29.7530441f,29.8034611f,29.8539639f,29.9045506f,29.955225f,30.0059853f,30.0568295f,30.1077614f,30.1587791f,30.2098846f,30.261076f,30.3123531f,
30.363718f,30.4151688f,30.4667091f,30.5183353f,30.5700493f,30.621851f,30.6737385f,30.7257156f,30.7777824f,30.8299351f,30.8821774f,30.9345074f,
30.9869251f,31.0394344f,31.0920315f,31.1447163f,31.1974907f,31.2503567f,31.3033104f,31.3563538f,31.4094887f,31.4627113f,31.5160255f,31.5694294f,
31.6229248f,31.6765099f,31.7301865f,31.7839546f,31.8378124f,31.8917618f,31.9458027f,31.9999352f};
static const float t_exp5_hi[2048] = {
1.00000203f,1.00169647f,1.00339389f,1.00509417f,1.00679731f,1.00850332f,1.0102123f,1.01192415f,1.01363885f,1.01535642f,1.01707697f,1.01880038f,
1.02052677f,1.02225614f,1.02398837f,1.02572346f,1.02746165f,1.0292027f,1.03094661f,1.03269362f,1.0344435f,1.03619635f,1.03795218f,1.03971112f,
1.04147291f,1.04323769f,1.04500544f,1.04677618f,1.04855001f,1.05032682f,1.05210662f,1.05388939f,1.05567527f,1.05746412f,1.05925596f,1.06105089f,
1.06284881f,1.06464982f,1.06645393f,1.06826103f,1.07007122f,1.07188451f,1.07370079f,1.07552016f,1.07734275f,1.07916832f,1.08099699f,1.08282876f,
1.08466363f,1.0865016f,1.08834267f,1.09018683f,1.09203422f,1.09388471f,1.09573829f,1.09759498f,1.09945488f,1.10131788f,1.1031841f,1.10505354f,
1.10692608f,1.10880172f,1.11068058f,1.11256266f,1.11444795f,1.11633635f,1.11822808f,1.12012291f,1.12202096f,1.12392223f,1.12582672f,1.12773442f,
1.12964547f,1.13155961f,1.13347709f,1.13539779f,1.13732171f,1.13924897f,1.14117944f,1.14311314f,1.14505017f,1.14699042f,1.14893401f,1.15088093f,
1.15283108f,1.15478456f,1.15674138f,1.15870154f,1.16066492f,1.16263175f,1.1646018f,1.16657531f,1.16855204f,1.17053223f,1.17251563f,1.17450249f,
1.17649269f,1.17848635f,1.18048322f,1.18248355f,1.18448734f,1.18649447f,1.18850505f,1.19051898f,1.19253623f,1.19455707f,1.19658124f,1.19860888f,
1.20063996f,1.20267439f,1.20471239f,1.20675385f,1.20879865f,1.21084702f,1.21289873f,1.21495402f,1.21701276f,1.21907508f,1.22114086f,1.2232101f,
1.22528279f,1.22735906f,1.22943878f,1.23152208f,1.23360896f,1.2356993f,1.23779321f,1.23989069f,1.24199176f,1.24409628f,1.24620438f,1.24831617f,
1.25043142f,1.25255024f,1.25467277f,1.25679886f,1.25892854f,1.26106179f,1.26319861f,1.26533914f,1.26748335f,1.26963103f,1.27178252f,1.27393758f,
1.27609622f,1.27825856f,1.28042459f,1.28259432f,1.28476775f,1.28694475f,1.28912556f,1.29130995f,1.29349804f,1.29568994f,1.29788554f,1.30008483f,
1.30228782f,1.3044945f,1.306705f,1.30891931f,1.3111372f,1.31335902f,1.31558454f,1.31781375f,1.32004678f,1.32228363f,1.32452428f,1.32676876f,
1.32901692f,1.33126903f,1.33352482f,1.33578455f,1.33804798f,1.34031534f,1.34258652f,1.34486163f,1.34714043f,1.34942317f,1.35170984f,1.35400033f,
1.35629475f,1.35859299f,1.36089516f,1.36320114f,1.36551118f,1.36782503f,1.37014282f,1.37246454f,1.37479019f,1.37711978f,1.37945342f,1.38179088f,
1.38413239f,1.38647771f,1.3888272f,1.39118052f,1.39353788f,1.3958993f,1.39826465f,1.40063405f,1.40300751f,1.4053849f,1.40776634f,1.41015184f,
1.41254127f,1.41493487f,1.41733253f,1.41973424f,1.42214f,1.42454982f,1.42696369f,1.42938173f,1.43180382f,1.43423009f,1.43666041f,1.43909478f,
1.44153345f,1.44397604f,1.44642293f,1.44887388f,1.45132899f,1.4537884f,1.45625186f,1.45871949f,1.4611913f,1.46366727f,1.46614754f,1.46863186f,
1.47112048f,1.47361338f,1.47611046f,1.47861171f,1.48111725f,1.48362696f,1.48614109f,1.48865938f,1.49118185f,1.49370873f,1.49623978f,1.49877524f,
1.50131488f,1.50385892f,1.50640726f,1.50895989f,1.51151681f,1.51407814f,1.51664376f,1.51921368f,1.521788f,1.52436674f,1.52694976f,1.5295372f,
1.53212905f,1.53472531f,1.53732586f,1.53993094f,1.54254031f,1.54515421f,1.54777253f,1.55039525f,1.55302238f,1.55565393f,1.55829f,1.56093061f,
1.56357563f,1.56622517f,1.56887913f,1.57153761f,1.57420063f,1.57686806f,1.57954013f,1.58221674f,1.58489776f,1.58758342f,1.59027362f,1.59296834f,
1.5956676f,1.59837151f,1.60107994f,1.60379303f,1.60651064f,1.6092329f,1.61195982f,1.61469126f,1.61742747f,1.62016821f,1.6229136f,1.62566364f,
1.62841833f,1.63117766f,1.63394177f,1.63671052f,1.63948393f,1.6422621f,1.64504492f,1.64783251f,1.65062475f,1.65342176f,1.65622354f,1.65902996f,
1.66184127f,1.66465724f,1.66747808f,1.67030358f,1.67313397f,1.67596912f,1.67880905f,1.68165386f,1.68450344f,1.68735778f,1.69021714f,1.69308114f,
1.69595015f,1.69882393f,1.70170259f,1.70458615f,1.70747459f,1.71036792f,1.71326625f,1.71616936f,1.71907747f,1.72199047f,1.72490835f,1.72783124f,
1.73075914f,1.73369193f,1.73662972f,1.73957241f,1.74252009f,1.74547291f,1.74843061f,1.75139332f,1.75436115f,1.75733387f,1.76031172f,1.76329458f,
1.76628256f,1.76927555f,1.77227354f,1.77527666f,1.77828491f,1.78129828f,1.78431666f,1.78734028f,1.79036891f,1.79340279f,1.79644167f,1.7994858f,
1.80253506f,1.80558944f,1.80864906f,1.81171381f,1.81478381f,1.81785905f,1.82093942f,1.82402503f,1.82711589f,1.83021188f,1.83331323f,1.83641982f,
1.83953166f,1.84264874f,1.84577119f,1.84889889f,1.85203183f,1.85517013f,1.85831368f,1.86146271f,1.86461699f,1.86777663f,1.87094152f,1.87411189f,
1.87728763f,1.88046873f,1.88365519f,1.88684702f,1.89004433f,1.89324701f,1.89645517f,1.89966881f,1.90288782f,1.90611219f,1.90934217f,1.91257763f,
1.91581845f,1.91906488f,1.92231679f,1.92557418f,1.92883706f,1.93210554f,1.93537951f,1.93865895f,1.94194412f,1.94523478f,1.94853091f,1.95183277f,
1.95514023f,1.95845318f,1.96177185f,1.96509612f,1.96842599f,1.97176147f,1.97510266f,1.97844946f,1.98180199f,1.98516023f,1.98852408f,1.99189365f,
1.99526894f,1.99864995f,2.00203681f,2.00542927f,2.00882745f,2.01223135f,2.01564121f,2.0190568f,2.0224781f,2.02590513f,2.02933812f,2.03277683f,
2.0362215f,2.0396719f,2.04312801f,2.04659009f,2.05005813f,2.05353189f,2.05701184f,2.06049728f,2.06398892f,2.06748629f,2.07098985f,2.07449913f,
2.07801437f,2.08153558f,2.08506274f,2.08859587f,2.09213519f,2.09568024f,2.09923148f,2.10278869f,2.10635185f,2.10992098f,2.1134963f,2.11707759f,
2.12066507f,2.12425852f,2.12785816f,2.13146377f,2.13507557f,2.13869357f,2.14231753f,2.14594793f,2.14958405f,2.15322661f,2.15687537f,2.16053009f,
2.16419125f,2.1678586f,2.17153192f,2.17521167f,2.17889762f,2.18258977f,2.18628812f,2.1899929f,2.19370389f,2.19742107f,2.2011447f,2.20487452f,
2.20861077f,2.21235323f,2.21610212f,2.21985745f,2.22361898f,2.22738695f,2.23116136f,2.23494196f,2.238729f,2.24252272f,2.24632263f,2.25012898f,
2.25394201f,2.25776124f,2.26158714f,2.26541948f,2.26925826f,2.27310348f,2.27695537f,2.28081369f,2.28467846f,2.2885499f,2.29242802f,2.29631233f,
2.30020356f,2.30410123f,2.30800557f,2.31191659f,2.31583428f,2.31975842f,2.32368922f,2.32762671f,2.33157086f,2.33552194f,2.33947945f,2.34344363f,
2.34741473f,2.35139251f,2.35537696f,2.35936809f,2.36336613f,2.36737084f,2.37138247f,2.37540078f,2.379426f,2.3834579f,2.38749671f,2.39154243f,
2.39559484f,2.39965415f,2.40372038f,2.40779352f,2.41187358f,2.41596055f,2.42005444f,2.42415524f,2.42826295f,2.43237782f,2.4364996f,2.44062829f,
2.4447639f,2.44890666f,2.45305634f,2.45721292f,2.46137667f,2.46554756f,2.46972561f,2.47391057f,2.47810268f,2.48230171f,2.48650813f,2.49072146f,
2.49494195f,2.49916983f,2.50340462f,2.5076468f,2.5118959f,2.51615238f,2.52041602f,2.52468681f,2.528965f,2.53325033f,2.53754306f,2.54184294f,
2.54615021f,2.55046463f,2.55478644f,2.55911565f,2.56345201f,2.56779575f,2.57214689f,2.57650542f,2.58087134f,2.58524466f,2.5896256f,2.59401369f,
2.59840918f,2.60281229f,2.6072228f,2.61164069f,2.61606622f,2.62049913f,2.62493968f,2.62938762f,2.63384318f,2.63830638f,2.64277697f,2.64725518f,
2.65174103f,2.6562345f,2.66073537f,2.6652441f,2.66976047f,2.67428422f,2.67881584f,2.68335533f,2.68790221f,2.69245696f,2.69701934f,2.70158935f,
2.70616722f,2.71075296f,2.71534634f,2.71994758f,2.72455668f,2.72917342f,2.73379803f,2.7384305f,2.74307084f,2.74771905f,2.75237489f,2.75703883f,
2.76171088f,2.76639056f,2.77107811f,2.77577376f,2.78047752f,2.78518891f,2.78990865f,2.79463601f,2.79937172f,2.8041153f,2.80886674f,2.81362653f,
2.81839418f,2.82316995f,2.82795405f,2.83274603f,2.83754611f,2.8423543f,2.84717083f,2.85199523f,2.85682797f,2.86166906f,2.86651826f,2.87137556f,
2.87624121f,2.88111496f,2.88599706f,2.8908875f,2.89578605f,2.90069294f,2.90560818f,2.91053176f,2.91546369f,2.9204042f,2.92535281f,2.93030977f,
2.93527532f,2.9402492f,2.94523144f,2.95022225f,2.95522141f,2.96022892f,2.96524525f,2.97026992f,2.97530293f,2.98034477f,2.98539495f,2.99045372f,
2.99552107f,3.000597f,3.00568151f,3.01077485f,3.01587653f,3.02098703f,3.02610612f,3.03123379f,3.03637028f,3.04151559f,3.04666948f,3.05183196f,
3.0570035f,3.06218362f,3.06737256f,3.07257009f,3.07777667f,3.08299208f,3.0882163f,3.09344935f,3.09869123f,3.10394192f,3.10920167f,3.11447024f,
3.11974764f,3.12503409f,3.13032961f,3.13563395f,3.14094734f,3.1462698f,3.15160108f,3.15694165f,3.16229105f,3.16764951f,3.17301726f,3.17839384f,
3.18377972f,3.18917465f,3.19457889f,3.19999218f,3.20541453f,3.21084619f,3.2162869f,3.22173715f,3.22719622f,3.23266482f,3.23814273f,3.24362969f,
3.2491262f,3.25463176f,3.26014686f,3.26567125f,3.27120495f,3.27674794f,3.28230047f,3.2878623f,3.29343367f,3.29901457f,3.30460477f,3.31020451f,
3.31581354f,3.32143235f,3.32706046f,3.33269835f,3.33834553f,3.34400249f,3.34966898f,3.35534501f,3.36103058f,3.36672592f,3.37243104f,3.37814569f,
3.38386989f,3.38960385f,3.3953476f,3.40110111f,3.4068644f,3.41263723f,3.41842008f,3.42421269f,3.43001509f,3.43582726f,3.4416492f,3.44748116f,
3.45332313f,3.45917463f,3.46503639f,3.47090793f,3.47678947f,3.4826808f,3.48858237f,3.49449372f,3.50041533f,3.5063467f,3.51228833f,3.51823997f,
3.52420163f,3.53017354f,3.53615546f,3.5421474f,3.54814959f,3.55416203f,3.56018472f,3.56621742f,3.57226038f,3.57831383f,3.58437729f,3.590451f,
3.59653497f,3.60262942f,3.60873413f,3.61484933f,3.62097454f,3.62711048f,3.63325667f,3.63941312f,3.64558029f,3.65175772f,3.65794563f,3.66414404f,
3.67035317f,3.67657256f,3.68280268f,3.68904305f,3.69529438f,3.70155597f,3.70782828f,3.71411133f,3.72040486f,3.72670913f,3.73302412f,3.73934984f,
3.74568629f,3.75203323f,3.75839114f,3.76475978f,3.77113938f,3.77752948f,3.78393054f,3.79034257f,3.79676533f,3.80319905f,3.80964351f,3.81609917f,
3.82256556f,3.82904291f,3.83553123f,3.84203076f,3.84854102f,3.85506248f,3.86159492f,3.86813831f,3.87469316f,3.88125873f,3.88783574f,3.89442372f,
3.90102267f,3.90763307f,3.91425467f,3.92088747f,3.92753148f,3.9341867f,3.94085312f,3.94753098f,3.95422029f,3.96092057f,3.96763253f,3.9743557f,
3.98109031f,3.98783636f,3.99459386f,4.0013628f,4.00814295f,4.01493502f,4.02173805f,4.02855301f,4.03537941f,4.04221773f,4.04906702f,4.05592823f,
4.06280136f,4.06968594f,4.07658195f,4.08348989f,4.09040928f,4.09734058f,4.10428333f,4.11123848f,4.11820459f,4.12518311f,4.13217354f,4.13917542f,
4.14618921f,4.15321493f,4.16025257f,4.16730213f,4.17436409f,4.18143749f,4.18852282f,4.19562054f,4.20273018f,4.20985174f,4.21698523f,4.22413111f,
4.23128891f,4.23845863f,4.24564075f,4.25283527f,4.26004171f,4.26726055f,4.27449131f,4.28173447f,4.28899002f,4.29625797f,4.30353785f,4.31083012f,
4.31813526f,4.32545233f,4.33278179f,4.34012365f,4.34747791f,4.35484505f,4.3622241f,4.36961603f,4.37702036f,4.38443756f,4.39186716f,4.39930916f,
4.40676355f,4.41423082f,4.42171097f,4.42920351f,4.43670893f,4.44422722f,4.45175791f,4.45930147f,4.46685791f,4.47442675f,4.48200893f,4.489604f,
4.49721146f,4.50483227f,4.51246548f,4.52011204f,4.52777147f,4.53544378f,4.54312897f,4.5508275f,4.55853891f,4.56626368f,4.57400131f,4.58175182f,
4.58951569f,4.5972929f,4.60508299f,4.61288643f,4.62070274f,4.62853289f,4.6363759f,4.64423227f,4.65210199f,4.65998507f,4.66788149f,4.67579126f,
4.68371439f,4.69165087f,4.69960117f,4.70756483f,4.71554184f,4.7235322f,4.73153639f,4.73955393f,4.7475853f,4.75563002f,4.76368856f,4.77176046f,
4.77984667f,4.78794622f,4.79605913f,4.80418634f,4.81232691f,4.82048178f,4.82865f,4.83683205f,4.8450284f,4.85323811f,4.86146212f,4.86969995f,
4.87795162f,4.88621759f,4.89449739f,4.90279102f,4.91109896f,4.91942072f,4.92775679f,4.93610716f,4.94447136f,4.95284986f,4.96124268f,4.96964931f,
4.97807074f,4.98650599f,4.99495554f,5.00341988f,5.01189804f,5.02039099f,5.02889776f,5.03741932f,5.04595518f,5.05450583f,5.06307077f,5.07165003f,
5.08024406f,5.08885288f,5.09747601f,5.10611343f,5.11476612f,5.12343311f,5.13211489f,5.14081144f,5.1495223f,5.15824842f,5.16698933f,5.17574453f,
5.184515f,5.19330025f,5.20210028f,5.21091557f,5.21974516f,5.22859049f,5.23745012f,5.24632502f,5.25521517f,5.2641201f,5.27304029f,5.28197575f,
5.29092598f,5.29989147f,5.30887222f,5.31786823f,5.3268795f,5.33590603f,5.34494781f,5.35400486f,5.36307716f,5.3721652f,5.38126802f,5.39038706f,
5.39952087f,5.40867043f,5.41783571f,5.42701626f,5.43621254f,5.44542408f,5.45465136f,5.46389437f,5.47315311f,5.4824276f,5.49171734f,5.50102329f,
5.51034498f,5.51968241f,5.52903557f,5.53840446f,5.5477891f,5.55718994f,5.566607f,5.57603931f,5.58548832f,5.59495306f,5.60443354f,5.61393023f,
5.62344313f,5.63297224f,5.64251757f,5.65207863f,5.66165638f,5.67125034f,5.68086004f,5.69048643f,5.70012903f,5.70978785f,5.71946335f,5.72915506f,
5.73886299f,5.74858761f,5.75832891f,5.76808643f,5.77786064f,5.78765106f,5.79745865f,5.80728245f,5.81712294f,5.82698011f,5.83685398f,5.84674454f,
5.85665178f,5.86657619f,5.8765173f,5.88647509f,5.89644957f,5.90644121f,5.91645002f,5.92647552f,5.93651772f,5.94657755f,5.95665407f,5.96674776f,
5.97685814f,5.98698616f,5.99713135f,6.0072937f,6.01747274f,6.02766943f,6.03788376f,6.04811478f,6.05836344f,6.06862926f,6.07891273f,6.08921385f,
6.09953213f,6.10986757f,6.12022114f,6.13059187f,6.14098024f,6.15138626f,6.16180992f,6.17225122f,6.18271017f,6.19318676f,6.20368099f,6.21419334f,
6.22472334f,6.23527145f,6.24583721f,6.25642061f,6.26702213f,6.27764177f,6.28827953f,6.29893494f,6.30960846f,6.3203001f,6.33101034f,6.34173822f,
6.35248423f,6.36324883f,6.37403154f,6.38483238f,6.39565134f,6.4064889f,6.41734505f,6.42821932f,6.43911171f,6.45002317f,6.46095276f,6.47190094f,
6.48286772f,6.49385309f,6.50485659f,6.51587915f,6.5269208f,6.53798056f,6.54905939f,6.56015682f,6.57127285f,6.58240795f,6.59356213f,6.6047349f,
6.61592674f,6.62713766f,6.63836765f,6.64961624f,6.6608839f,6.67217112f,6.6834774f,6.69480228f,6.70614672f,6.7175107f,6.72889328f,6.74029589f,
6.75171709f,6.76315784f,6.77461815f,6.786098f,6.79759693f,6.80911589f,6.82065392f,6.83221149f,6.8437891f,6.85538578f,6.86700249f,6.87863874f,
6.89029455f,6.90197039f,6.91366577f,6.92538118f,6.93711615f,6.94887114f,6.96064615f,6.9724412f,6.98425627f,6.99609089f,7.00794601f,7.01982117f,
7.03171635f,7.04363155f,7.05556726f,7.067523f,7.07949877f,7.09149504f,7.10351181f,7.11554861f,7.12760639f,7.1396842f,7.15178251f,7.16390133f,
7.17604065f,7.18820047f,7.2003808f,7.21258211f,7.22480392f,7.23704624f,7.24930954f,7.26159382f,7.2738986f,7.28622437f,7.29857111f,7.31093836f,
7.32332706f,7.33573627f,7.34816694f,7.36061859f,7.37309122f,7.38558531f,7.3980999f,7.41063643f,7.42319345f,7.43577242f,7.44837236f,7.46099377f,
7.47363663f,7.48630095f,7.49898624f,7.51169348f,7.52442217f,7.53717232f,7.5499444f,7.56273794f,7.57555294f,7.58838987f,7.60124826f,7.61412907f,
7.62703133f,7.63995552f,7.65290117f,7.66586924f,7.67885923f,7.69187117f,7.70490503f,7.71796131f,7.73103952f,7.74413967f,7.75726223f,7.7704072f,
7.7835741f,7.79676342f,7.80997515f,7.82320929f,7.83646584f,7.8497448f,7.86304665f,7.87637043f,7.8897171f,7.90308619f,7.91647816f,7.92989302f,
7.94333029f,7.95679045f,7.97027302f,7.98377895f,7.9973073f,8.01085949f,8.02443314f,8.03803158f,8.05165195f,8.06529522f,8.07896233f,8.09265232f,
8.1063652f,8.12010193f,8.13386154f,8.14764404f,8.16145039f,8.17527962f,8.18913364f,8.20300961f,8.21691036f,8.23083401f,8.24478054f,8.25875187f,
8.27274609f,8.28676414f,8.300807f,8.31487274f,8.32896233f,8.34307575f,8.35721302f,8.37137413f,8.38556004f,8.39976978f,8.41400337f,8.4282608f,
8.44254208f,8.45684814f,8.47117901f,8.48553371f,8.49991226f,8.51431561f,8.52874279f,8.54319477f,8.55767155f,8.57217312f,8.58669853f,8.60124874f,
8.61582375f,8.63042355f,8.64504719f,8.65969658f,8.67437077f,8.68906975f,8.70379353f,8.7185421f,8.73331547f,8.74811459f,8.7629385f,8.77778721f,
8.79266167f,8.80756092f,8.82248497f,8.83743477f,8.85241032f,8.86741066f,8.88243675f,8.89748764f,8.91256523f,8.92766762f,8.94279575f,8.95794964f,
8.97312832f,8.9883337f,9.00356483f,9.01882172f,9.03410339f,9.04941177f,9.06474686f,9.08010674f,9.09549332f,9.11090565f,9.12634468f,9.14180946f,
9.1573f,9.17281723f,9.18836021f,9.20393085f,9.21952629f,9.23514938f,9.25079823f,9.26647377f,9.28217602f,9.29790497f,9.31366062f,9.32944202f,
9.34525108f,9.36108685f,9.37694931f,9.39283848f,9.4087553f,9.42469883f,9.44066906f,9.45666599f,9.47269058f,9.48874187f,9.50482082f,9.52092743f,
9.53706074f,9.55322075f,9.56940937f,9.58562469f,9.60186768f,9.61813831f,9.63443661f,9.6507616f,9.66711521f,9.68349648f,9.6999054f,9.71634197f,
9.73280621f,9.74929905f,9.7658186f,9.78236771f,9.79894352f,9.81554794f,9.83218098f,9.84884167f,9.86553097f,9.88224792f,9.89899349f,9.91576767f,
9.9325695f,9.9494009f,9.96625996f,9.98314762f,10.0000648f,10.0170097f,10.0339842f,10.0509863f,10.068018f,10.0850782f,10.1021681f,10.1192865f,
10.1364336f,10.1536102f,10.1708155f,10.1880503f,10.2053137f,10.2226067f,10.2399292f,10.2572803f,10.274662f,10.2920723f,10.3095121f,10.3269825f,
10.3444815f,10.36201f,10.3795691f,10.3971567f,10.4147749f,10.4324236f,10.4501009f,10.4678087f,10.4855471f,10.503315f,10.5211124f,10.5389414f,
10.5567989f,10.574688f,10.5926065f,10.6105566f,10.6285362f,10.6465464f,10.664587f,10.6826582f,10.7007599f,10.7188931f,10.7370558f,10.75525f,
10.7734747f,10.7917309f,10.8100176f,10.8283358f,10.8466845f,10.8650637f,10.8834753f,10.9019175f,10.9203911f,10.9388952f,10.9574318f,10.9759989f,
10.9945984f,11.0132284f,11.0318909f,11.0505848f,11.0693102f,11.0880671f,11.1068554f,11.1256762f,11.1445293f,11.163414f,11.1823301f,11.2012787f,
11.2202597f,11.2392721f,11.2583179f,11.2773952f,11.296505f,11.3156471f,11.3348217f,11.3540287f,11.3732681f,11.39254f,11.4118452f,11.4311829f,
11.4505529f,11.4699554f,11.4893923f,11.5088606f,11.5283632f,11.5478973f,11.5674658f,11.5870667f,11.6067019f,11.6263695f,11.6460705f,11.6658049f,
11.6855726f,11.7053738f,11.7252092f,11.7450771f,11.7649794f,11.7849159f,11.8048849f,11.8248892f,11.8449259f,11.8649979f,11.8851032f,11.9052429f,
11.925416f,11.9456244f,11.9658661f,11.9861422f,12.0064535f,12.0267982f,12.0471773f,12.0675917f,12.0880404f,12.1085243f,12.1290417f,12.1495953f,
12.1701822f,12.1908054f,12.211463f,12.2321548f,12.252883f,12.2736454f,12.2944431f,12.3152761f,12.3361444f,12.357048f,12.3779879f,12.398962f,
12.4199724f,12.4410181f,12.4621f,12.4832172f,12.5043697f,12.5255594f,12.5467834f,12.5680447f,12.5893412f,12.6106739f,12.6320429f,12.6534481f,
12.6748896f,12.6963673f,12.7178812f,12.7394323f,12.7610197f,12.7826433f,12.8043032f,12.8260002f,12.8477345f,12.8695049f,12.8913126f,12.9131575f,
12.9350386f,12.9569569f,12.9789133f,13.000906f,13.0229359f,13.0450039f,13.0671091f,13.0892515f,13.1114311f,13.1336489f,13.1559038f,13.1781969f,
13.2005272f,13.2228956f,13.2453022f,13.2677469f,13.2902288f,13.3127489f,13.3353081f,13.3579044f,13.3805399f,13.4032135f,13.4259253f,13.4486761f,
13.4714651f,13.4942923f,13.5171585f,13.5400639f,13.5630074f,13.58599f,13.6090117f,13.6320724f,13.6551723f,13.6783113f,13.7014894f,13.7247066f,
13.7479639f,13.7712593f,13.7945948f,13.8179703f,13.8413849f,13.8648396f,13.8883333f,13.9118681f,13.935442f,13.9590549f,13.9827089f,14.006403f,
14.0301371f,14.0539112f,14.0777264f,14.1015806f,14.1254759f,14.1494122f,14.1733885f,14.1974058f,14.2214632f,14.2455616f,14.269701f,14.2938814f,
14.3181028f,14.3423643f,14.3666677f,14.3910122f,14.4153986f,14.4398251f,14.4642935f,14.4888039f,14.5133553f,14.5379486f,14.562583f,14.5872593f,
14.6119776f,14.6367378f,14.66154f,14.6863842f,14.7112713f,14.7361994f,14.7611704f,14.7861834f,14.8112383f,14.8363361f,14.8614769f,14.8866596f,
14.9118853f,14.9371538f,14.9624653f,14.9878187f,15.013216f,15.0386562f,15.0641394f,15.0896664f,15.1152353f,15.1408482f,15.1665049f,15.1922045f,
15.217948f,15.2437353f,15.2695656f,15.2954407f,15.3213587f,15.3473215f,15.3733273f,15.3993778f,15.4254723f,15.4516106f,15.4777937f,15.5040216f,
15.5302935f,15.5566092f,15.5829706f,15.609376f,15.6358261f,15.6623211f,15.6888609f,15.7154465f,15.7420759f,15.7687511f,15.7954721f,15.822238f,
15.8490486f,15.875905f,15.9028072f,15.9297543f,15.956748f,15.9837866f,16.0108719f,16.038002f,16.0651779f,16.0924015f,16.1196709f,16.146986f,
16.1743469f,16.2017536f,16.229208f,16.2567081f,16.284256f,16.3118496f,16.3394909f,16.367178f,16.3949127f,16.4226933f,16.4505234f,16.4783974f,
16.506321f,16.5342922f,16.5623093f,16.590374f,16.6184864f,16.6466465f,16.6748543f,16.7031097f,16.7314148f,16.7597656f,16.788166f,16.8166142f,
16.8451099f,16.8736534f,16.9022465f,16.9308872f,16.9595776f,16.9883156f,17.0171032f,17.0459385f,17.0748234f,17.103756f,17.1327381f,17.1617699f,
17.1908512f,17.2199821f,17.2491608f,17.278389f,17.3076687f,17.3369961f,17.366375f,17.3958015f,17.4252796f,17.4548073f,17.4843845f,17.5140114f,
17.5436897f,17.5734177f,17.6031952f,17.6330242f,17.6629047f,17.6928349f,17.7228146f,17.7528458f,17.7829285f,17.8130627f,17.8432465f,17.8734818f,
17.9037685f,17.9341068f,17.9644966f,17.9949379f,18.0254307f,18.055975f,18.0865707f,18.1172199f,18.1479187f,18.1786709f,18.2094746f,18.2403316f,
18.2712402f,18.3022003f,18.3332138f,18.3642807f,18.3953991f,18.426569f,18.4577942f,18.4890709f,18.520401f,18.5517845f,18.5832195f,18.6147099f,
18.6462536f,18.6778488f,18.7094994f,18.7412033f,18.7729607f,18.8047714f,18.8366356f,18.8685551f,18.900528f,18.9325542f,18.9646358f,18.9967728f,
19.0289631f,19.0612068f,19.0935078f,19.1258621f,19.1582699f,19.1907349f,19.2232533f,19.255827f,19.288456f,19.3211403f,19.3538818f,19.3866768f,
19.4195271f,19.4524345f,19.4853973f,19.5184155f,19.5514889f,19.5846195f,19.6178055f,19.6510487f,19.6843472f,19.7177029f,19.7511158f,19.784584f,
19.8181095f,19.8516903f,19.8853302f,19.9190254f,19.9527798f,19.9865894f,20.0204563f,20.0543823f,20.0883636f,20.1224041f,20.1565018f,20.1906567f,
20.2248707f,20.2591419f,20.2934723f,20.3278599f,20.3623047f,20.3968086f,20.4313717f,20.4659939f,20.5006733f,20.5354118f,20.5702095f,20.6050663f,
20.6399822f,20.6749554f,20.7099895f,20.7450829f,20.7802372f,20.8154488f,20.8507214f,20.8860531f,20.9214439f,20.9568958f,20.9924088f,21.0279789f,
21.063612f,21.0993042f,21.1350574f,21.1708717f,21.2067451f,21.2426815f,21.278677f,21.3147335f,21.350853f,21.3870316f,21.4232712f,21.4595737f,
21.4959373f,21.532362f,21.5688496f,21.6053982f,21.6420097f,21.6786823f,21.715416f,21.7522144f,21.7890739f,21.8259945f,21.8629799f,21.9000263f,
21.9371376f,21.9743099f,22.0115452f,22.0488434f,22.0862064f,22.1236324f,22.1611214f,22.1986732f,22.2362881f,22.2739677f,22.3117123f,22.3495197f,
22.387392f,22.4253273f,22.4633274f,22.5013905f,22.5395203f,22.577713f,22.6159725f,22.654295f,22.6926842f,22.7311363f,22.7696552f,22.808239f,
22.8468876f,22.885601f,22.9243813f,22.9632263f,23.0021381f,23.0411167f,23.0801601f,23.1192684f,23.1584454f,23.1976871f,23.2369957f,23.276371f,
23.3158131f,23.3553238f,23.3948994f,23.4345417f,23.4742527f,23.5140285f,23.553875f,23.5937862f,23.6337662f,23.6738148f,23.7139301f,23.7541142f,
23.7943649f,23.8346844f,23.8750744f,23.9155293f,23.9560547f,23.9966488f,24.0373116f,24.078043f,24.118845f,24.1597137f,24.2006531f,24.2416611f,
24.2827396f,24.3238869f,24.3651028f,24.4063911f,24.4477482f,24.4891739f,24.5306721f,24.5722389f,24.6138783f,24.6555862f,24.6973648f,24.7392159f,
24.7811356f,24.8231277f,24.8651924f,24.9073257f,24.9495316f,24.9918098f,25.0341587f,25.0765781f,25.119072f,25.1616364f,25.2042732f,25.2469826f,
25.2897625f,25.3326168f,25.3755436f,25.4185429f,25.4616146f,25.5047607f,25.5479774f,25.5912704f,25.634634f,25.678072f,25.7215843f,25.7651711f,
25.8088303f,25.8525639f,25.8963699f,25.9402523f,25.9842091f,26.0282402f,26.0723438f,26.1165237f,26.16078f,26.2051086f,26.2495136f,26.2939949f,
26.3385506f,26.3831806f,26.427887f,26.4726696f,26.5175285f,26.5624619f,26.6074734f,26.6525593f,26.6977234f,26.7429619f,26.7882786f,26.8336716f,
26.8791428f,26.9246902f,26.970314f,27.016016f,27.0617943f,27.1076508f,27.1535854f,27.1995964f,27.2456875f,27.2918549f,27.3381023f,27.3844261f,
27.43083f,27.4773121f,27.5238724f,27.5705128f,27.6172314f,27.6640282f,27.710907f,27.7578621f,27.8048992f,27.8520145f,27.89921f,27.9464855f,
27.9938412f,28.0412769f,28.0887947f,28.1363907f,28.1840687f,28.2318268f,28.279665f,28.3275852f,28.3755875f,28.4236698f,28.4718342f,28.5200806f,
28.568409f,28.6168175f,28.6653099f,28.7138824f,28.7625389f,28.8112774f,28.8600998f,28.9090023f,28.9579906f,29.0070591f,29.0562115f,29.1054478f,
29.154768f,29.2041721f,29.2536583f,29.3032284f,29.3528843f,29.4026222f,29.452446f,29.5023537f,29.5523453f,29.6024227f,29.6525841f,29.7028313f,
29.7531624f,29.8035793f,29.8540821f,29.9046707f,29.9553452f,30.0061035f,30.0569496f,30.1078815f,30.1589012f,30.2100048f,30.2611961f,30.3124752f,
30.3638401f,30.4152908f,30.4668312f,30.5184574f,30.5701714f,30.621973f,30.6738625f,30.7258396f,30.7779045f,30.8300591f,30.8822994f,30.9346313f,
30.9870491f,31.0395584f,31.0921555f,31.1448402f,31.1976166f,31.2504807f,31.3034363f,31.3564796f,31.4096146f,31.4628372f,31.5161514f,31.5695572f,
31.6230526f,31.6766376f,31.7303143f,31.7840805f,31.8379402f,31.8918896f,31.9459305f,32.0000648f};
static const float t_exp10_lo[2048] = {
0.999997973f,1.00338984f,1.00679326f,1.01020825f,1.0136348f,1.01707292f,1.02052271f,1.02398419f,1.02745748f,1.03094256f,1.03443933f,1.03794813f,
1.04146874f,1.04500127f,1.04854584f,1.05210233f,1.05567098f,1.05925167f,1.06284463f,1.06644964f,1.07006693f,1.07369649f,1.07733834f,1.08099258f,
1.08465922f,1.08833826f,1.09202981f,1.09573388f,1.09945047f,1.10317969f,1.10692155f,1.11067617f,1.11444342f,1.11822355f,1.12201643f,1.12582219f,
1.12964094f,1.13347256f,1.13731718f,1.14117479f,1.14504564f,1.14892948f,1.15282655f,1.15673673f,1.16066027f,1.16459715f,1.16854739f,1.17251098f,
1.17648804f,1.18047857f,1.18448257f,1.18850029f,1.19253147f,1.19657648f,1.20063519f,1.20470762f,1.20879388f,1.21289396f,1.21700799f,1.22113597f,
1.2252779f,1.22943389f,1.23360407f,1.23778832f,1.24198675f,1.24619949f,1.25042641f,1.25466776f,1.25892341f,1.26319361f,1.26747823f,1.27177739f,
1.2760911f,1.28041947f,1.2847625f,1.28912032f,1.29349291f,1.29788029f,1.30228257f,1.30669975f,1.31113195f,1.31557918f,1.32004154f,1.32451904f,
1.32901168f,1.33351946f,1.33804262f,1.34258115f,1.34713507f,1.35170448f,1.35628927f,1.36088967f,1.3655057f,1.37013733f,1.37478471f,1.37944782f,
1.38412678f,1.3888216f,1.3935324f,1.39825904f,1.40300179f,1.40776074f,1.41253567f,1.41732681f,1.42213428f,1.42695796f,1.4317981f,1.43665469f,
1.44152761f,1.44641709f,1.45132327f,1.45624602f,1.46118546f,1.46614158f,1.47111464f,1.4761045f,1.48111129f,1.48613513f,1.49117589f,1.49623382f,
1.50130892f,1.50640118f,1.51151073f,1.51663768f,1.52178192f,1.52694368f,1.53212297f,1.53731978f,1.54253411f,1.54776633f,1.55301619f,1.55828381f,
1.56356943f,1.56887281f,1.57419431f,1.57953382f,1.58489144f,1.59026718f,1.59566128f,1.60107362f,1.60650432f,1.61195338f,1.61742091f,1.62290704f,
1.62841177f,1.63393521f,1.63947737f,1.64503837f,1.65061808f,1.65621686f,1.6618346f,1.66747141f,1.67312729f,1.67880237f,1.68449664f,1.69021034f,
1.69594336f,1.7016958f,1.70746779f,1.71325934f,1.71907055f,1.72490144f,1.73075223f,1.73662269f,1.74251318f,1.74842358f,1.75435412f,1.76030469f,
1.76627541f,1.77226651f,1.77827787f,1.78430963f,1.79036176f,1.79643452f,1.80252779f,1.80864179f,1.81477654f,1.82093215f,1.8271085f,1.83330595f,
1.83952427f,1.8457638f,1.85202444f,1.85830629f,1.86460948f,1.87093401f,1.87728012f,1.88364768f,1.89003682f,1.89644754f,1.90288019f,1.90933454f,
1.91581082f,1.92230904f,1.92882931f,1.93537176f,1.94193637f,1.94852316f,1.95513237f,1.96176398f,1.96841812f,1.9750948f,1.98179412f,1.98851609f,
1.99526095f,2.0020287f,2.00881934f,2.01563311f,2.02247f,2.02933002f,2.03621316f,2.04311991f,2.05005002f,2.0570035f,2.06398058f,2.0709815f,
2.07800603f,2.0850544f,2.09212685f,2.0992229f,2.10634327f,2.11348796f,2.12065673f,2.12784958f,2.13506722f,2.14230895f,2.14957547f,2.15686679f,
2.16418266f,2.17152333f,2.1788888f,2.18627954f,2.19369507f,2.20113587f,2.20860195f,2.2160933f,2.22361016f,2.2311523f,2.23872018f,2.24631357f,
2.25393295f,2.26157808f,2.2692492f,2.27694607f,2.2846694f,2.29241872f,2.3001945f,2.30799651f,2.31582499f,2.32367992f,2.33156157f,2.33947015f,
2.34740543f,2.35536742f,2.36335659f,2.37137294f,2.37941647f,2.38748717f,2.3955853f,2.40371084f,2.41186404f,2.4200449f,2.42825341f,2.43648982f,
2.44475412f,2.45304632f,2.46136689f,2.4697156f,2.47809267f,2.48649812f,2.49493217f,2.5033946f,2.51188588f,2.52040601f,2.52895498f,2.53753281f,
2.54613996f,2.55477619f,2.56344175f,2.57213664f,2.58086109f,2.58961511f,2.59839892f,2.60721231f,2.61605573f,2.62492919f,2.63383269f,2.64276648f,
2.6517303f,2.66072488f,2.66974974f,2.67880511f,2.68789148f,2.69700861f,2.70615649f,2.71533561f,2.72454572f,2.73378706f,2.74305987f,2.75236392f,
2.76169968f,2.77106714f,2.78046632f,2.78989744f,2.79936051f,2.80885553f,2.81838298f,2.82794261f,2.83753467f,2.84715939f,2.85681677f,2.86650658f,
2.87622952f,2.88598537f,2.89577436f,2.90559673f,2.91545224f,2.92534113f,2.93526363f,2.94521976f,2.95520949f,2.96523333f,2.97529101f,2.98538303f,
2.99550915f,3.00566959f,3.01586461f,3.02609396f,3.03635812f,3.04665732f,3.0569911f,3.06736016f,3.07776451f,3.08820391f,3.09867883f,3.10918927f,
3.11973524f,3.13031697f,3.14093471f,3.15158844f,3.16227841f,3.17300463f,3.18376708f,3.19456601f,3.20540166f,3.21627402f,3.22718334f,3.23812962f,
3.24911308f,3.26013374f,3.27119184f,3.28228736f,3.29342055f,3.30459142f,3.31580043f,3.32704735f,3.33833218f,3.34965563f,3.36101723f,3.37241745f,
3.3838563f,3.39533401f,3.40685081f,3.41840649f,3.43000126f,3.44163561f,3.4533093f,3.46502256f,3.47677541f,3.48856831f,3.50040126f,3.51227427f,
3.52418756f,3.53614116f,3.54813552f,3.56017041f,3.57224607f,3.58436298f,3.59652066f,3.60871983f,3.62096024f,3.63324213f,3.64556575f,3.65793109f,
3.67033839f,3.6827879f,3.6952796f,3.7078135f,3.72039008f,3.73300934f,3.74567127f,3.75837612f,3.77112412f,3.78391552f,3.79675007f,3.80962825f,
3.8225503f,3.83551598f,3.84852552f,3.86157942f,3.87467766f,3.88782001f,3.90100718f,3.91423893f,3.92751575f,3.94083738f,3.95420432f,3.96761656f,
3.98107433f,3.99457788f,4.00812721f,4.02172232f,4.03536367f,4.04905081f,4.06278515f,4.07656574f,4.09039307f,4.10426712f,4.11818838f,4.13215685f,
4.14617252f,4.16023588f,4.1743474f,4.18850613f,4.20271301f,4.21696854f,4.23127174f,4.24562407f,4.26002455f,4.27447414f,4.28897285f,4.30352068f,
4.31811762f,4.33276415f,4.34746075f,4.36220694f,4.37700319f,4.39184952f,4.40674591f,4.42169333f,4.43669128f,4.45174026f,4.46683979f,4.48199081f,
4.49719334f,4.51244736f,4.52775335f,4.54311085f,4.55852079f,4.57398272f,4.58949709f,4.60506439f,4.62068415f,4.63635731f,4.6520834f,4.66786289f,
4.68369579f,4.6995821f,4.71552277f,4.73151731f,4.74756622f,4.76366949f,4.77982759f,4.79604006f,4.81230783f,4.82863045f,4.84500885f,4.86144257f,
4.87793207f,4.89447784f,4.91107941f,4.92773724f,4.94445133f,4.96122265f,4.97805071f,4.99493551f,5.01187801f,5.02887774f,5.04593515f,5.06305075f,
5.08022404f,5.0974555f,5.11474562f,5.13209438f,5.1495018f,5.16696835f,5.1844945f,5.20207977f,5.21972466f,5.23742914f,5.25519419f,5.27301931f,
5.290905f,5.30885124f,5.32685804f,5.34492636f,5.36305571f,5.38124657f,5.39949942f,5.41781378f,5.43619061f,5.45462942f,5.47313118f,5.4916954f,
5.51032257f,5.52901316f,5.54776716f,5.56658459f,5.58546591f,5.60441113f,5.62342072f,5.64249516f,5.66163349f,5.68083763f,5.70010614f,5.71944046f,
5.7388401f,5.75830555f,5.77783728f,5.79743528f,5.81709957f,5.83683062f,5.85662842f,5.87649345f,5.8964262f,5.91642618f,5.93649435f,5.95663023f,
5.9768343f,5.99710703f,6.0174489f,6.03785944f,6.05833912f,6.07888842f,6.09950733f,6.12019634f,6.14095545f,6.16178513f,6.18268538f,6.2036562f,
6.22469854f,6.24581194f,6.26699734f,6.28825426f,6.30958319f,6.33098507f,6.35245895f,6.37400579f,6.39562559f,6.4173193f,6.43908596f,6.46092701f,
6.48284149f,6.50483084f,6.52689457f,6.54903316f,6.57124662f,6.5935359f,6.61590052f,6.63834095f,6.66085768f,6.68345022f,6.70612001f,6.72886658f,
6.75169039f,6.77459145f,6.79756975f,6.82062674f,6.84376144f,6.86697483f,6.8902669f,6.91363811f,6.93708849f,6.9606185f,6.98422813f,7.00791788f,
7.03168821f,7.05553865f,7.07947063f,7.1034832f,7.12757778f,7.1517539f,7.17601204f,7.20035219f,7.22477484f,7.24928093f,7.27386951f,7.29854202f,
7.3232975f,7.34813786f,7.37306166f,7.39807034f,7.42316389f,7.4483428f,7.47360659f,7.4989562f,7.52439213f,7.54991388f,7.5755229f,7.60121822f,
7.62700081f,7.65287066f,7.67882824f,7.70487452f,7.73100853f,7.75723124f,7.78354311f,7.80994415f,7.83643436f,7.86301517f,7.88968563f,7.91644669f,
7.94329834f,7.97024107f,7.99727535f,8.02440166f,8.05161953f,8.0789299f,8.10633278f,8.13382816f,8.16141796f,8.18910027f,8.21687698f,8.24474812f,
8.27271366f,8.30077362f,8.32892895f,8.35717964f,8.38552666f,8.41396904f,8.4425087f,8.47114468f,8.49987793f,8.52870846f,8.55763721f,8.5866642f,
8.61578941f,8.64501286f,8.67433643f,8.70375824f,8.73328114f,8.76290321f,8.79262638f,8.82244968f,8.85237503f,8.88240147f,8.91252899f,8.94275951f,
8.97309303f,9.00352859f,9.03406811f,9.06471062f,9.09545708f,9.12630749f,9.15726376f,9.18832397f,9.21949005f,9.25076103f,9.28213882f,9.31362343f,
9.34521389f,9.37691212f,9.40871716f,9.44063091f,9.47265244f,9.50478268f,9.53702259f,9.56937122f,9.60182953f,9.63439751f,9.66707706f,9.69986629f,
9.73276711f,9.7657795f,9.79890442f,9.83214092f,9.86549091f,9.89895344f,9.9325304f,9.9662199f,10.0000248f,10.0339441f,10.0679779f,10.1021271f,
10.1363926f,10.1707745f,10.2052727f,10.2398882f,10.274621f,10.3094711f,10.3444395f,10.3795271f,10.4147339f,10.4500589f,10.4855051f,10.5210705f,
10.556757f,10.5925646f,10.6284933f,10.6645441f,10.700717f,10.7370129f,10.7734318f,10.8099747f,10.8466406f,10.8834314f,10.9203472f,10.9573879f,
10.9945545f,11.031847f,11.0692654f,11.1068115f,11.1444845f,11.1822853f,11.2202148f,11.2582722f,11.2964592f,11.3347759f,11.3732224f,11.4117994f,
11.4505072f,11.4893456f,11.5283165f,11.56742f,11.6066551f,11.6460238f,11.6855259f,11.7251616f,11.7649326f,11.8048382f,11.8448792f,11.8850555f,
11.9253683f,11.9658184f,12.0064049f,12.0471296f,12.0879927f,12.128993f,12.1701336f,12.2114134f,12.2528334f,12.2943935f,12.3360958f,12.3779383f,
12.4199228f,12.4620504f,12.5043201f,12.5467339f,12.5892906f,12.6319923f,12.674839f,12.7178307f,12.7609682f,12.8042526f,12.847683f,12.8912611f,
12.9349871f,12.9788609f,13.0228844f,13.0670567f,13.1113787f,13.1558514f,13.2004747f,13.2452488f,13.2901754f,13.3352547f,13.3804865f,13.4258718f,
13.4714108f,13.5171051f,13.562953f,13.6089573f,13.655118f,13.7014341f,13.7479086f,13.7945404f,13.8413296f,13.888278f,13.9353857f,13.9826536f,
14.0300808f,14.0776701f,14.1254196f,14.1733322f,14.221406f,14.2696438f,14.3180447f,14.3666105f,14.4153404f,14.4642363f,14.5132971f,14.5625248f,
14.6119194f,14.6614819f,14.7112122f,14.7611113f,14.8111792f,14.8614168f,14.9118261f,14.9624052f,15.0131559f,15.0640793f,15.1151752f,15.1664448f,
15.2178869f,15.2695045f,15.3212976f,15.3732662f,15.4254103f,15.4777317f,15.5302305f,15.5829077f,15.6357632f,15.6887989f,15.742013f,15.7954082f,
15.8489847f,15.9027433f,15.9566841f,16.010807f,16.065115f,16.119606f,16.1742821f,16.2291431f,16.2841911f,16.339426f,16.3948479f,16.4504566f,
16.5062542f,16.5622425f,16.6184196f,16.6747875f,16.731348f,16.7880993f,16.8450413f,16.9021778f,16.9595089f,17.0170345f,17.0747547f,17.1326694f,
17.1907825f,17.2490921f,17.3076f,17.3663044f,17.425209f,17.484314f,17.5436192f,17.6031246f,17.6628342f,17.722744f,17.7828579f,17.8431759f,
17.903698f,17.964426f,18.0253582f,18.0864983f,18.1478462f,18.2094021f,18.2711678f,18.3331413f,18.3953247f,18.4577198f,18.5203266f,18.5831451f,
18.6461773f,18.709425f,18.7728844f,18.8365612f,18.9004517f,18.9645615f,19.0288868f,19.0934315f,19.1581936f,19.223177f,19.2883797f,19.3538036f,
19.4194508f,19.4853191f,19.5514107f,19.6177273f,19.684269f,19.7510357f,19.8180294f,19.8852501f,19.9526997f,20.0203762f,20.0882835f,20.1564217f,
20.2247906f,20.2933903f,20.3622227f,20.4312897f,20.5005913f,20.5701275f,20.6398983f,20.7099075f,20.7801533f,20.8506374f,20.92136f,20.9923248f,
21.0635281f,21.1349735f,21.2066612f,21.2785912f,21.3507671f,21.4231873f,21.4958515f,21.5687637f,21.641922f,21.7153301f,21.7889862f,21.8628922f,
21.937048f,22.0114574f,22.0861187f,22.1610317f,22.2362003f,22.3116226f,22.3873024f,22.4632378f,22.5394306f,22.615881f,22.6925926f,22.7695637f,
22.846796f,22.9242897f,23.0020466f,23.0800667f,23.1583519f,23.2369041f,23.3157215f,23.3948059f,23.4741573f,23.5537796f,23.6336727f,23.7138348f,
23.7942696f,23.8749771f,23.9559593f,24.0372162f,24.1187477f,24.2005558f,24.2826424f,24.3650055f,24.447649f,24.5305748f,24.6137791f,24.6972675f,
24.7810383f,24.8650913f,24.9494324f,25.0340576f,25.1189709f,25.2041721f,25.2896614f,25.3754425f,25.4615135f,25.5478764f,25.6345329f,25.7214813f,
25.8087273f,25.8962669f,25.9841042f,26.0722408f,26.160675f,26.2494087f,26.3384438f,26.4277821f,26.5174217f,26.6073666f,26.6976166f,26.7881718f,
26.879034f,26.9702053f,27.0616856f,27.1534767f,27.2455788f,27.3379936f,27.4307213f,27.5237637f,27.6171207f,27.7107944f,27.8047867f,27.8990993f,
27.9937286f,28.0886822f,28.1839561f,28.2795525f,28.3754749f,28.4717216f,28.5682945f,28.6651955f,28.7624245f,28.8599834f,28.9578743f,29.056097f,
29.1546516f,29.2535419f,29.352766f,29.4523277f,29.552227f,29.6524658f,29.7530441f,29.8539639f,29.955225f,30.0568295f,30.1587791f,30.261076f,
30.363718f,30.4667091f,30.5700493f,30.6737385f,30.7777824f,30.8821774f,30.9869251f,31.0920315f,31.1974907f,31.3033104f,31.4094887f,31.5160255f,
31.6229248f,31.7301865f,31.8378124f,31.9458027f,32.0541611f,32.1628838f,32.2719765f,32.381443f,32.4912758f,32.6014824f,32.7120628f,32.8230209f,
32.9343529f,33.0460625f,33.1581535f,33.2706223f,33.3834724f,33.4967041f,33.610321f,33.7243271f,33.8387146f,33.9534912f,34.0686607f,34.1842155f,
34.3001671f,34.4165077f,34.5332451f,34.6503792f,34.76791f,34.8858414f,35.0041695f,35.1228981f,35.2420349f,35.3615723f,35.481514f,35.6018639f,
35.7226219f,35.8437881f,35.9653664f,36.0873566f,36.2097626f,36.3325844f,36.4558182f,36.5794754f,36.7035484f,36.8280411f,36.952961f,37.0783005f,
37.2040672f,37.3302574f,37.4568787f,37.583931f,37.7114105f,37.839325f,37.9676704f,38.0964546f,38.2256737f,38.3553314f,38.4854279f,38.6159668f,
38.7469482f,38.878376f,39.0102463f,39.1425667f,39.2753334f,39.4085503f,39.5422211f,39.676342f,39.8109207f,39.9459572f,40.0814476f,40.2174034f,
40.3538132f,40.4906921f,40.6280327f,40.7658386f,40.90411f,41.0428543f,41.1820679f,41.3217545f,41.4619141f,41.6025467f,41.74366f,41.8852501f,
42.0273209f,42.1698723f,42.3129082f,42.4564285f,42.6004372f,42.7449341f,42.8899193f,43.0354004f,43.1813698f,43.3278389f,43.4748001f,43.6222649f,
43.7702255f,43.9186897f,44.0676575f,44.2171326f,44.3671112f,44.517601f,44.6685982f,44.8201103f,44.9721375f,45.1246758f,45.2777367f,45.4313126f,
45.5854111f,45.7400322f,45.8951797f,46.0508499f,46.2070503f,46.363781f,46.5210419f,46.6788368f,46.8371658f,46.9960327f,47.1554375f,47.3153839f,
47.4758759f,47.6369095f,47.7984886f,47.9606133f,48.123291f,48.2865219f,48.4503059f,48.6146431f,48.779541f,48.9449959f,49.1110115f,49.2775917f,
49.4447365f,49.6124496f,49.7807274f,49.9495811f,50.1190033f,50.2890015f,50.4595795f,50.6307297f,50.8024673f,50.974781f,51.147686f,51.3211708f,
51.4952469f,51.6699142f,51.8451729f,52.0210266f,52.1974792f,52.374527f,52.5521774f,52.7304268f,52.9092827f,53.0887489f,53.2688179f,53.449501f,
53.6307983f,53.812706f,53.9952354f,54.1783829f,54.3621483f,54.5465393f,54.7315559f,54.917202f,55.1034737f,55.2903786f,55.4779205f,55.6660957f,
55.854908f,56.0443611f,56.2344589f,56.4252014f,56.6165886f,56.8086281f,57.0013161f,57.1946602f,57.3886566f,57.5833168f,57.7786331f,57.9746132f,
58.171257f,58.3685684f,58.5665474f,58.7651978f,58.9645233f,59.1645279f,59.3652077f,59.5665665f,59.7686119f,59.9713402f,60.1747589f,60.3788643f,
60.5836639f,60.7891579f,60.9953461f,61.2022362f,61.4098282f,61.6181259f,61.8271294f,62.0368385f,62.247261f,62.4584007f,62.6702538f,62.8828239f,
63.0961151f,63.3101311f,63.5248718f,63.7403412f,63.956543f,64.1734772f,64.3911514f,64.6095581f,64.8287048f,65.0485992f,65.2692337f,65.4906235f,
65.7127609f,65.9356537f,66.1593018f,66.3837051f,66.6088715f,66.8348007f,67.0615005f,67.2889633f,67.5172043f,67.7462158f,67.9760056f,68.2065735f,
68.4379196f,68.6700592f,68.902977f,69.1366882f,69.3711929f,69.6064911f,69.8425903f,70.0794907f,70.3171921f,70.5557022f,70.7950211f,71.0351486f,
71.2760925f,71.5178604f,71.760437f,72.0038452f,72.2480698f,72.4931335f,72.7390213f,72.9857407f,73.2333069f,73.4817047f,73.7309494f,73.9810333f,
74.2319717f,74.483757f,74.7363968f,74.9898987f,75.2442551f,75.4994812f,75.7555618f,76.0125198f,76.2703476f,76.5290451f,76.7886276f,77.0490875f,
77.3104324f,77.5726624f,77.8357773f,78.0997925f,78.3646927f,78.6305008f,78.8972092f,79.1648178f,79.433342f,79.7027664f,79.973114f,80.2443771f,
80.5165558f,80.7896576f,81.0636902f,81.3386459f,81.6145401f,81.8913727f,82.169136f,82.4478455f,82.7275009f,83.0081024f,83.2896576f,83.5721741f,
83.8556366f,84.1400681f,84.4254608f,84.7118301f,84.9991608f,85.287468f,85.5767593f,85.8670273f,86.1582794f,86.4505157f,86.7437515f,87.0379715f,
87.3331985f,87.629425f,87.926651f,88.2248917f,88.5241394f,88.8244095f,89.1256943f,89.4279938f,89.7313309f,90.0356903f,90.3410797f,90.6475067f,
90.9549789f,91.2634888f,91.5730438f,91.8836517f,92.1953125f,92.5080261f,92.8218079f,93.1366501f,93.4525604f,93.7695389f,94.0875931f,94.4067307f,
94.7269516f,95.0482559f,95.3706512f,95.6941376f,96.0187225f,96.3444061f,96.671196f,96.9990997f,97.3281097f,97.6582336f,97.9894791f,98.3218536f,
98.6553497f,98.9899826f,99.3257446f,99.6626511f,100.000694f,100.339882f,100.680229f,101.021729f,101.36438f,101.708199f,102.053185f,102.399338f,
102.746666f,103.095169f,103.444862f,103.795738f,104.147804f,104.50106f,104.855515f,105.211174f,105.568039f,105.926117f,106.285408f,106.64592f,
107.007652f,107.370613f,107.734802f,108.100227f,108.466888f,108.834801f,109.203957f,109.574364f,109.94603f,110.318962f,110.693146f,111.068611f,
111.445343f,111.823357f,112.202652f,112.583229f,112.965103f,113.348267f,113.732735f,114.1185f,114.505577f,114.893974f,115.283684f,115.674713f,
116.06707f,116.460754f,116.855782f,117.252144f,117.649849f,118.048904f,118.449318f,118.851089f,119.254219f,119.658714f,120.064583f,120.471832f,
120.880463f,121.290474f,121.701881f,122.114685f,122.528885f,122.944489f,123.361504f,123.779938f,124.199783f,124.621056f,125.043762f,125.467896f,
125.893471f,126.320488f,126.748955f,127.178871f,127.610252f,128.043091f,128.477402f,128.913193f,129.350449f,129.789185f,130.229416f,130.671143f,
131.114365f,131.559097f,132.005341f,132.453079f,132.902344f,133.353149f,133.805466f,134.259323f,134.714706f,135.171646f,135.630142f,136.090179f,
136.551788f,137.014954f,137.479706f,137.946014f,138.41391f,138.883408f,139.354477f,139.827164f,140.301437f,140.777328f,141.254822f,141.733948f,
142.214691f,142.697083f,143.181091f,143.666748f,144.154053f,144.643005f,145.133621f,145.6259f,146.119843f,146.615479f,147.112778f,147.611771f,
148.112457f,148.614838f,149.118927f,149.624725f,150.132233f,150.641464f,151.15242f,151.665115f,152.17955f,152.695724f,153.213654f,153.733353f,
154.254791f,154.778015f,155.303009f,155.829773f,156.358337f,156.888687f,157.420837f,157.954788f,158.490555f,159.028137f,159.567551f,160.108795f,
160.651855f,161.196777f,161.743546f,162.29216f,162.842636f,163.394989f,163.949203f,164.505295f,165.063293f,165.623169f,166.184937f,166.748627f,
167.314224f,167.881729f,168.451172f,169.022537f,169.595856f,170.171097f,170.748306f,171.327469f,171.9086f,172.491684f,173.076767f,173.663818f,
174.252869f,174.843918f,175.436981f,176.032043f,176.62912f,177.228226f,177.829376f,178.432556f,179.037781f,179.64505f,180.254395f,180.865799f,
181.479279f,182.094833f,182.712479f,183.33223f,183.954071f,184.578033f,185.204102f,185.832291f,186.462616f,187.095078f,187.729691f,188.36644f,
189.005371f,189.646454f,190.289719f,190.935165f,191.582794f,192.23262f,192.884659f,193.538895f,194.195374f,194.854065f,195.514984f,196.178146f,
196.843567f,197.511246f,198.181183f,198.853394f,199.527878f,200.204666f,200.883728f,201.565109f,202.248795f,202.934814f,203.623138f,204.313812f,
205.006821f,205.702194f,206.399918f,207.099991f,207.80246f,208.507309f,209.214539f,209.924179f,210.636215f,211.350677f,212.067551f,212.786865f,
213.508621f,214.232819f,214.959473f,215.688599f,216.420197f,217.154266f,217.890839f,218.629898f,219.371475f,220.115555f,220.862167f,221.611313f,
222.362991f,223.117218f,223.874023f,224.633377f,225.395309f,226.159821f,226.926941f,227.696655f,228.468979f,229.243927f,230.0215f,230.801697f,
231.584564f,232.370071f,233.158249f,233.949097f,234.74263f,235.538849f,236.337784f,237.139404f,237.943771f,238.750839f,239.560669f,240.37323f,
241.188553f,242.006638f,242.827499f,243.651154f,244.477585f,245.306839f,246.138885f,246.97377f,247.811478f,248.652039f,249.495438f,250.341705f,
251.190826f,252.042847f,252.897751f,253.755554f,254.616272f,255.479904f,256.346466f,257.215973f,258.088409f,258.963837f,259.842194f,260.723572f,
261.60791f,262.49527f,263.38562f,264.278992f,265.175415f,266.07486f,266.977356f,267.882904f,268.791534f,269.703247f,270.618073f,271.53598f,
272.457001f,273.381134f,274.308441f,275.238861f,276.172455f,277.109192f,278.049103f,278.992218f,279.938538f,280.888062f,281.84082f,282.796783f,
283.756012f,284.718475f,285.684204f,286.653229f,287.625519f,288.601135f,289.580048f,290.562256f,291.547821f,292.536713f,293.528961f,294.524597f,
295.52359f,296.52597f,297.531769f,298.540955f,299.553589f,300.569641f,301.589142f,302.612091f,303.63855f,304.668457f,305.701843f,306.73877f,
307.779175f,308.823151f,309.870636f,310.921692f,311.976318f,313.034515f,314.096283f,315.161682f,316.230652f,317.303284f,318.379547f,319.459473f,
320.54303f,321.63028f,322.721222f,323.815857f,324.914215f,326.016296f,327.122101f,328.231659f,329.345001f,330.462097f,331.583008f,332.707703f,
333.836212f,334.968536f,336.104736f,337.244751f,338.388672f,339.536438f,340.68811f,341.843689f,343.003204f,344.166626f,345.334015f,346.505341f,
347.680664f,348.859955f,350.043243f,351.23056f,352.421906f,353.617279f,354.816711f,356.020233f,357.227814f,358.439484f,359.655273f,360.875183f,
362.099243f,363.327454f,364.559814f,365.796387f,367.037109f,368.282074f,369.53125f,370.784668f,372.042328f,373.30426f,374.570465f,375.840973f,
377.115784f,378.394928f,379.678406f,380.966248f,382.258453f,383.555023f,384.855988f,386.161407f,387.471222f,388.785492f,390.104187f,391.427399f,
392.755066f,394.08728f,395.423981f,396.765198f,398.110992f,399.461365f,400.816284f,402.175812f,403.539948f,404.908722f,406.282135f,407.660187f,
409.042938f,410.430389f,411.82251f,413.21936f,414.620972f,416.027313f,417.438446f,418.85437f,420.275085f,421.700592f,423.130981f,424.566193f,
426.006287f,427.451233f,428.901123f,430.355896f,431.815643f,433.280304f,434.749939f,436.224579f,437.704224f,439.188873f,440.678558f,442.173279f,
443.673096f,445.177979f,446.687988f,448.203094f,449.723358f,451.248779f,452.779388f,454.315155f,455.85614f,457.402374f,458.953827f,460.510559f,
462.072571f,463.639862f,465.212494f,466.790436f,468.373749f,469.962433f,471.556488f,473.155975f,474.760864f,476.371216f,477.987f,479.608307f,
481.235077f,482.867371f,484.505219f,486.148621f,487.797577f,489.452148f,491.112305f,492.778107f,494.449585f,496.126709f,497.809509f,499.498016f,
501.192261f,502.892273f,504.598022f,506.30957f,508.026917f,509.750092f,511.479126f,513.213989f,514.954773f,516.701477f,518.454041f,520.212585f,
521.977112f,523.74762f,525.524109f,527.306641f,529.095215f,530.889832f,532.690552f,534.497375f,536.310364f,538.129456f,539.954773f,541.786255f,
543.623901f,545.467834f,547.317993f,549.174438f,551.03717f,552.90625f,554.781677f,556.663452f,558.551575f,560.446106f,562.347107f,564.254517f,
566.168457f,568.088806f,570.015686f,571.949158f,573.88916f,575.835693f,577.788879f,579.748718f,581.715149f,583.688293f,585.668091f,587.654602f,
589.647888f,591.647888f,593.654724f,595.668335f,597.688782f,599.716064f,601.750244f,603.791321f,605.839355f,607.894287f,609.956177f,612.025085f,
614.101013f,616.184021f,618.274048f,620.371155f,622.475403f,624.586792f,626.705322f,628.831055f,630.963989f,633.104126f,635.251587f,637.40625f,
639.568298f,641.737671f,643.914368f,646.09845f,648.289978f,650.488892f,652.695251f,654.90918f,657.130554f,659.359497f,661.595947f,663.840027f,
666.091675f,668.351013f,670.617981f,672.892639f,675.175049f,677.465149f,679.763062f,682.068787f,684.382263f,686.703613f,689.032837f,691.369995f,
693.715027f,696.068054f,698.429077f,700.798035f,703.17511f,705.560181f,707.953369f,710.354675f,712.76416f,715.181763f,717.607605f,720.041626f,
722.483948f,724.93457f,727.393433f,729.860718f,732.336304f,734.820312f,737.312744f,739.81366f,742.323059f,744.840942f,747.367371f,749.902344f,
752.445923f,754.998169f,757.559021f,760.128601f,762.706909f,765.293884f,767.889709f,770.494324f,773.107727f,775.730042f,778.361267f,781.001404f,
783.650452f,786.308533f,788.975586f,791.651733f,794.336914f,797.03125f,799.73468f,802.447327f,805.169128f,807.900208f,810.640503f,813.390137f,
816.149048f,818.917358f,821.695068f,824.482178f,827.278687f,830.084778f,832.90033f,835.725464f,838.56012f,841.40448f,844.258423f,847.12207f,
849.995422f,852.878479f,855.771362f,858.674072f,861.586609f,864.509033f,867.441345f,870.383606f,873.335876f,876.298157f,879.270447f,882.252869f,
885.245361f,888.248047f,891.260925f,894.283997f,897.317261f,900.360901f,903.414856f,906.479126f,909.553833f,912.638916f,915.734497f,918.840576f,
921.957214f,925.084412f,928.222168f,931.370605f,934.529724f,937.699585f,940.880188f,944.071533f,947.273743f,950.486816f,953.710754f,956.945618f,
960.191528f,963.448364f,966.716309f,969.9953f,973.2854f,976.586731f,979.899231f,983.2229f,986.557922f,989.904236f,993.261902f,996.63092f,
1000.01141f,1003.40332f,1006.80676f,1010.22174f,1013.64832f,1017.08655f,1020.53638f,1023.99792f};
static const float t_exp10_hi[2048] = {
1.00000203f,1.00339389f,1.00679731f,1.0102123f,1.01363885f,1.01707697f,1.02052677f,1.02398837f,1.02746165f,1.03094661f,1.0344435f,1.03795218f,
1.04147291f,1.04500544f,1.04855001f,1.05210662f,1.05567527f,1.05925596f,1.06284881f,1.06645393f,1.07007122f,1.07370079f,1.07734275f,1.08099699f,
1.08466363f,1.08834267f,1.09203422f,1.09573829f,1.09945488f,1.1031841f,1.10692608f,1.11068058f,1.11444795f,1.11822808f,1.12202096f,1.12582672f,
1.12964547f,1.13347709f,1.13732171f,1.14117944f,1.14505017f,1.14893401f,1.15283108f,1.15674138f,1.16066492f,1.1646018f,1.16855204f,1.17251563f,
1.17649269f,1.18048322f,1.18448734f,1.18850505f,1.19253623f,1.19658124f,1.20063996f,1.20471239f,1.20879865f,1.21289873f,1.21701276f,1.22114086f,
1.22528279f,1.22943878f,1.23360896f,1.23779321f,1.24199176f,1.24620438f,1.25043142f,1.25467277f,1.25892854f,1.26319861f,1.26748335f,1.27178252f,
1.27609622f,1.28042459f,1.28476775f,1.28912556f,1.29349804f,1.29788554f,1.30228782f,1.306705f,1.3111372f,1.31558454f,1.32004678f,1.32452428f,
1.32901692f,1.33352482f,1.33804798f,1.34258652f,1.34714043f,1.35170984f,1.35629475f,1.36089516f,1.36551118f,1.37014282f,1.37479019f,1.37945342f,
1.38413239f,1.3888272f,1.39353788f,1.39826465f,1.40300751f,1.40776634f,1.41254127f,1.41733253f,1.42214f,1.42696369f,1.43180382f,1.43666041f,
1.44153345f,1.44642293f,1.45132899f,1.45625186f,1.4611913f,1.46614754f,1.47112048f,1.47611046f,1.48111725f,1.48614109f,1.49118185f,1.49623978f,
1.50131488f,1.50640726f,1.51151681f,1.51664376f,1.521788f,1.52694976f,1.53212905f,1.53732586f,1.54254031f,1.54777253f,1.55302238f,1.55829f,
1.56357563f,1.56887913f,1.57420063f,1.57954013f,1.58489776f,1.59027362f,1.5956676f,1.60107994f,1.60651064f,1.61195982f,1.61742747f,1.6229136f,
1.62841833f,1.63394177f,1.63948393f,1.64504492f,1.65062475f,1.65622354f,1.66184127f,1.66747808f,1.67313397f,1.67880905f,1.68450344f,1.69021714f,
1.69595015f,1.70170259f,1.70747459f,1.71326625f,1.71907747f,1.72490835f,1.73075914f,1.73662972f,1.74252009f,1.74843061f,1.75436115f,1.76031172f,
1.76628256f,1.77227354f,1.77828491f,1.78431666f,1.79036891f,1.79644167f,1.80253506f,1.80864906f,1.81478381f,1.82093942f,1.82711589f,1.83331323f,
1.83953166f,1.84577119f,1.85203183f,1.85831368f,1.86461699f,1.87094152f,1.87728763f,1.88365519f,1.89004433f,1.89645517f,1.90288782f,1.90934217f,
1.91581845f,1.92231679f,1.92883706f,1.93537951f,1.94194412f,1.94853091f,1.95514023f,1.96177185f,1.96842599f,1.97510266f,1.98180199f,1.98852408f,
1.99526894f,2.00203681f,2.00882745f,2.01564121f,2.0224781f,2.02933812f,2.0362215f,2.04312801f,2.05005813f,2.05701184f,2.06398892f,2.07098985f,
2.07801437f,2.08506274f,2.09213519f,2.09923148f,2.10635185f,2.1134963f,2.12066507f,2.12785816f,2.13507557f,2.14231753f,2.14958405f,2.15687537f,
2.16419125f,2.17153192f,2.17889762f,2.18628812f,2.19370389f,2.2011447f,2.20861077f,2.21610212f,2.22361898f,2.23116136f,2.238729f,2.24632263f,
2.25394201f,2.26158714f,2.26925826f,2.27695537f,2.28467846f,2.29242802f,2.30020356f,2.30800557f,2.31583428f,2.32368922f,2.33157086f,2.33947945f,
2.34741473f,2.35537696f,2.36336613f,2.37138247f,2.379426f,2.38749671f,2.39559484f,2.40372038f,2.41187358f,2.42005444f,2.42826295f,2.4364996f,
2.4447639f,2.45305634f,2.46137667f,2.46972561f,2.47810268f,2.48650813f,2.49494195f,2.50340462f,2.5118959f,2.52041602f,2.528965f,2.53754306f,
2.54615021f,2.55478644f,2.56345201f,2.57214689f,2.58087134f,2.5896256f,2.59840918f,2.6072228f,2.61606622f,2.62493968f,2.63384318f,2.64277697f,
2.65174103f,2.66073537f,2.66976047f,2.67881584f,2.68790221f,2.69701934f,2.70616722f,2.71534634f,2.72455668f,2.73379803f,2.74307084f,2.75237489f,
2.76171088f,2.77107811f,2.78047752f,2.78990865f,2.79937172f,2.80886674f,2.81839418f,2.82795405f,2.83754611f,2.84717083f,2.85682797f,2.86651826f,
2.87624121f,2.88599706f,2.89578605f,2.90560818f,2.91546369f,2.92535281f,2.93527532f,2.94523144f,2.95522141f,2.96524525f,2.97530293f,2.98539495f,
2.99552107f,3.00568151f,3.01587653f,3.02610612f,3.03637028f,3.04666948f,3.0570035f,3.06737256f,3.07777667f,3.0882163f,3.09869123f,3.10920167f,
3.11974764f,3.13032961f,3.14094734f,3.15160108f,3.16229105f,3.17301726f,3.18377972f,3.19457889f,3.20541453f,3.2162869f,3.22719622f,3.23814273f,
3.2491262f,3.26014686f,3.27120495f,3.28230047f,3.29343367f,3.30460477f,3.31581354f,3.32706046f,3.33834553f,3.34966898f,3.36103058f,3.37243104f,
3.38386989f,3.3953476f,3.4068644f,3.41842008f,3.43001509f,3.4416492f,3.45332313f,3.46503639f,3.47678947f,3.48858237f,3.50041533f,3.51228833f,
3.52420163f,3.53615546f,3.54814959f,3.56018472f,3.57226038f,3.58437729f,3.59653497f,3.60873413f,3.62097454f,3.63325667f,3.64558029f,3.65794563f,
3.67035317f,3.68280268f,3.69529438f,3.70782828f,3.72040486f,3.73302412f,3.74568629f,3.75839114f,3.77113938f,3.78393054f,3.79676533f,3.80964351f,
3.82256556f,3.83553123f,3.84854102f,3.86159492f,3.87469316f,3.88783574f,3.90102267f,3.91425467f,3.92753148f,3.94085312f,3.95422029f,3.96763253f,
3.98109031f,3.99459386f,4.00814295f,4.02173805f,4.03537941f,4.04906702f,4.06280136f,4.07658195f,4.09040928f,4.10428333f,4.11820459f,4.13217354f,
4.14618921f,4.16025257f,4.17436409f,4.18852282f,4.20273018f,4.21698523f,4.23128891f,4.24564075f,4.26004171f,4.27449131f,4.28899002f,4.30353785f,
4.31813526f,4.33278179f,4.34747791f,4.3622241f,4.37702036f,4.39186716f,4.40676355f,4.42171097f,4.43670893f,4.45175791f,4.46685791f,4.48200893f,
4.49721146f,4.51246548f,4.52777147f,4.54312897f,4.55853891f,4.57400131f,4.58951569f,4.60508299f,4.62070274f,4.6363759f,4.65210199f,4.66788149f,
4.68371439f,4.69960117f,4.71554184f,4.73153639f,4.7475853f,4.76368856f,4.77984667f,4.79605913f,4.81232691f,4.82865f,4.8450284f,4.86146212f,
4.87795162f,4.89449739f,4.91109896f,4.92775679f,4.94447136f,4.96124268f,4.97807074f,4.99495554f,5.01189804f,5.02889776f,5.04595518f,5.06307077f,
5.08024406f,5.09747601f,5.11476612f,5.13211489f,5.1495223f,5.16698933f,5.184515f,5.20210028f,5.21974516f,5.23745012f,5.25521517f,5.27304029f,
5.29092598f,5.30887222f,5.3268795f,5.34494781f,5.36307716f,5.38126802f,5.39952087f,5.41783571f,5.43621254f,5.45465136f,5.47315311f,5.49171734f,
5.51034498f,5.52903557f,5.5477891f,5.566607f,5.58548832f,5.60443354f,5.62344313f,5.64251757f,5.66165638f,5.68086004f,5.70012903f,5.71946335f,
5.73886299f,5.75832891f,5.77786064f,5.79745865f,5.81712294f,5.83685398f,5.85665178f,5.8765173f,5.89644957f,5.91645002f,5.93651772f,5.95665407f,
5.97685814f,5.99713135f,6.01747274f,6.03788376f,6.05836344f,6.07891273f,6.09953213f,6.12022114f,6.14098024f,6.16180992f,6.18271017f,6.20368099f,
6.22472334f,6.24583721f,6.26702213f,6.28827953f,6.30960846f,6.33101034f,6.35248423f,6.37403154f,6.39565134f,6.41734505f,6.43911171f,6.46095276f,
6.48286772f,6.50485659f,6.5269208f,6.54905939f,6.57127285f,6.59356213f,6.61592674f,6.63836765f,6.6608839f,6.6834774f,6.70614672f,6.72889328f,
6.75171709f,6.77461815f,6.79759693f,6.82065392f,6.8437891f,6.86700249f,6.89029455f,6.91366577f,6.93711615f,6.96064615f,6.98425627f,7.00794601f,
7.03171635f,7.05556726f,7.07949877f,7.10351181f,7.12760639f,7.15178251f,7.17604065f,7.2003808f,7.22480392f,7.24930954f,7.2738986f,7.29857111f,
7.32332706f,7.34816694f,7.37309122f,7.3980999f,7.42319345f,7.44837236f,7.47363663f,7.49898624f,7.52442217f,7.5499444f,7.57555294f,7.60124826f,
7.62703133f,7.65290117f,7.67885923f,7.70490503f,7.73103952f,7.75726223f,7.7835741f,7.80997515f,7.83646584f,7.86304665f,7.8897171f,7.91647816f,
7.94333029f,7.97027302f,7.9973073f,8.02443314f,8.05165195f,8.07896233f,8.1063652f,8.13386154f,8.16145039f,8.18913364f,8.21691036f,8.24478054f,
8.27274609f,8.300807f,8.32896233f,8.35721302f,8.38556004f,8.41400337f,8.44254208f,8.47117901f,8.49991226f,8.52874279f,8.55767155f,8.58669853f,
8.61582375f,8.64504719f,8.67437077f,8.70379353f,8.73331547f,8.7629385f,8.79266167f,8.82248497f,8.85241032f,8.88243675f,8.91256523f,8.94279575f,
8.97312832f,9.00356483f,9.03410339f,9.06474686f,9.09549332f,9.12634468f,9.1573f,9.18836021f,9.21952629f,9.25079823f,9.28217602f,9.31366062f,
9.34525108f,9.37694931f,9.4087553f,9.44066906f,9.47269058f,9.50482082f,9.53706074f,9.56940937f,9.60186768f,9.63443661f,9.66711521f,9.6999054f,
9.73280621f,9.7658186f,9.79894352f,9.83218098f,9.86553097f,9.89899349f,9.9325695f,9.96625996f,10.0000648f,10.0339842f,10.068018f,10.1021681f,
10.1364336f,10.1708155f,10.2053137f,10.2399292f,10.274662f,10.3095121f,10.3444815f,10.3795691f,10.4147749f,10.4501009f,10.4855471f,10.5211124f,
10.5567989f,10.5926065f,10.6285362f,10.664587f,10.7007599f,10.7370558f,10.7734747f,10.8100176f,10.8466845f,10.8834753f,10.9203911f,10.9574318f,
10.9945984f,11.0318909f,11.0693102f,11.1068554f,11.1445293f,11.1823301f,11.2202597f,11.2583179f,11.296505f,11.3348217f,11.3732681f,11.4118452f,
11.4505529f,11.4893923f,11.5283632f,11.5674658f,11.6067019f,11.6460705f,11.6855726f,11.7252092f,11.7649794f,11.8048849f,11.8449259f,11.8851032f,
11.925416f,11.9658661f,12.0064535f,12.0471773f,12.0880404f,12.1290417f,12.1701822f,12.211463f,12.252883f,12.2944431f,12.3361444f,12.3779879f,
12.4199724f,12.4621f,12.5043697f,12.5467834f,12.5893412f,12.6320429f,12.6748896f,12.7178812f,12.7610197f,12.8043032f,12.8477345f,12.8913126f,
12.9350386f,12.9789133f,13.0229359f,13.0671091f,13.1114311f,13.1559038f,13.2005272f,13.2453022f,13.2902288f,13.3353081f,13.3805399f,13.4259253f,
13.4714651f,13.5171585f,13.5630074f,13.6090117f,13.6551723f,13.7014894f,13.7479639f,13.7945948f,13.8413849f,13.8883333f,13.935442f,13.9827089f,
14.0301371f,14.0777264f,14.1254759f,14.1733885f,14.2214632f,14.269701f,14.3181028f,14.3666677f,14.4153986f,14.4642935f,14.5133553f,14.562583f,
14.6119776f,14.66154f,14.7112713f,14.7611704f,14.8112383f,14.8614769f,14.9118853f,14.9624653f,15.013216f,15.0641394f,15.1152353f,15.1665049f,
15.217948f,15.2695656f,15.3213587f,15.3733273f,15.4254723f,15.4777937f,15.5302935f,15.5829706f,15.6358261f,15.6888609f,15.7420759f,15.7954721f,
15.8490486f,15.9028072f,15.956748f,16.0108719f,16.0651779f,16.1196709f,16.1743469f,16.229208f,16.284256f,16.3394909f,16.3949127f,16.4505234f,
16.506321f,16.5623093f,16.6184864f,16.6748543f,16.7314148f,16.788166f,16.8451099f,16.9022465f,16.9595776f,17.0171032f,17.0748234f,17.1327381f,
17.1908512f,17.2491608f,17.3076687f,17.366375f,17.4252796f,17.4843845f,17.5436897f,17.6031952f,17.6629047f,17.7228146f,17.7829285f,17.8432465f,
17.9037685f,17.9644966f,18.0254307f,18.0865707f,18.1479187f,18.2094746f,18.2712402f,18.3332138f,18.3953991f,18.4577942f,18.520401f,18.5832195f,
18.6462536f,18.7094994f,18.7729607f,18.8366356f,18.900528f,18.9646358f,19.0289631f,19.0935078f,19.1582699f,19.2232533f,19.288456f,19.3538818f,
19.4195271f,19.4853973f,19.5514889f,19.6178055f,19.6843472f,19.7511158f,19.8181095f,19.8853302f,19.9527798f,20.0204563f,20.0883636f,20.1565018f,
20.2248707f,20.2934723f,20.3623047f,20.4313717f,20.5006733f,20.5702095f,20.6399822f,20.7099895f,20.7802372f,20.8507214f,20.9214439f,20.9924088f,
21.063612f,21.1350574f,21.2067451f,21.278677f,21.350853f,21.4232712f,21.4959373f,21.5688496f,21.6420097f,21.715416f,21.7890739f,21.8629799f,
21.9371376f,22.0115452f,22.0862064f,22.1611214f,22.2362881f,22.3117123f,22.387392f,22.4633274f,22.5395203f,22.6159725f,22.6926842f,22.7696552f,
22.8468876f,22.9243813f,23.0021381f,23.0801601f,23.1584454f,23.2369957f,23.3158131f,23.3948994f,23.4742527f,23.553875f,23.6337662f,23.7139301f,
23.7943649f,23.8750744f,23.9560547f,24.0373116f,24.118845f,24.2006531f,24.2827396f,24.3651028f,24.4477482f,24.5306721f,24.6138783f,24.6973648f,
24.7811356f,24.8651924f,24.9495316f,25.0341587f,25.119072f,25.2042732f,25.2897625f,25.3755436f,25.4616146f,25.5479774f,25.634634f,25.7215843f,
25.8088303f,25.8963699f,25.9842091f,26.0723438f,26.16078f,26.2495136f,26.3385506f,26.427887f,26.5175285f,26.6074734f,26.6977234f,26.7882786f,
26.8791428f,26.970314f,27.0617943f,27.1535854f,27.2456875f,27.3381023f,27.43083f,27.5238724f,27.6172314f,27.710907f,27.8048992f,27.89921f,
27.9938412f,28.0887947f,28.1840687f,28.279665f,28.3755875f,28.4718342f,28.568409f,28.6653099f,28.7625389f,28.8600998f,28.9579906f,29.0562115f,
29.154768f,29.2536583f,29.3528843f,29.452446f,29.5523453f,29.6525841f,29.7531624f,29.8540821f,29.9553452f,30.0569496f,30.1589012f,30.2611961f,
30.3638401f,30.4668312f,30.5701714f,30.6738625f,30.7779045f,30.8822994f,30.9870491f,31.0921555f,31.1976166f,31.3034363f,31.4096146f,31.5161514f,
31.6230526f,31.7303143f,31.8379402f,31.9459305f,32.054287f,32.1630135f,32.2721062f,32.3815727f,32.4914055f,32.6016121f,32.7121964f,32.8231506f,
32.9344864f,33.046196f,33.1582832f,33.2707558f,33.383606f,33.4968376f,33.6104584f,33.7244606f,33.8388519f,33.9536285f,34.0687943f,34.1843529f,
34.3003044f,34.4166451f,34.5333862f,34.6505203f,34.7680511f,34.8859787f,35.0043106f,35.1230392f,35.2421722f,35.3617134f,35.4816551f,35.602005f,
35.7227631f,35.8439331f,35.9655113f,36.0875015f,36.2099075f,36.3327293f,36.4559669f,36.5796204f,36.7036934f,36.8281898f,36.9531059f,37.0784492f,
37.204216f,37.33041f,37.4570312f,37.5840797f,37.7115631f,37.8394737f,37.967823f,38.0966072f,38.2258263f,38.355484f,38.4855804f,38.6161232f,
38.7471046f,38.8785286f,39.0104027f,39.1427231f,39.2754898f,39.4087067f,39.5423775f,39.6765022f,39.8110809f,39.9461174f,40.0816078f,40.2175636f,
40.3539772f,40.4908524f,40.6281929f,40.7660027f,40.904274f,41.0430183f,41.1822319f,41.3219185f,41.4620781f,41.6027145f,41.743824f,41.8854179f,
42.0274887f,42.1700401f,42.313076f,42.4566002f,42.6006088f,42.7451057f,42.8900909f,43.0355721f,43.1815414f,43.3280106f,43.4749756f,43.6224365f,
43.770401f,43.9188652f,44.0678329f,44.217308f,44.3672867f,44.5177765f,44.6687775f,44.8202896f,44.9723167f,45.1248589f,45.277916f,45.4314957f,
45.5855942f,45.7402153f,45.8953629f,46.051033f,46.2072334f,46.3639641f,46.5212288f,46.6790237f,46.8373528f,46.9962196f,47.1556282f,47.3155746f,
47.4760628f,47.6371002f,47.7986794f,47.9608078f,48.1234856f,48.2867165f,48.4505005f,48.6148376f,48.7797356f,48.9451904f,49.1112099f,49.2777901f,
49.4449348f,49.612648f,49.7809258f,49.9497795f,50.1192055f,50.2892036f,50.4597778f,50.6309357f,50.8026695f,50.974987f,51.1478882f,51.3213768f,
51.4954529f,51.6701202f,51.8453827f,52.0212364f,52.1976852f,52.3747368f,52.5523872f,52.7306404f,52.9094963f,53.0889587f,53.2690315f,53.4497147f,
53.631012f,53.8129234f,53.9954491f,54.1785965f,54.3623657f,54.5467567f,54.7317734f,54.9174194f,55.1036949f,55.2905998f,55.4781418f,55.666317f,
55.8551331f,56.0445862f,56.234684f,56.4254265f,56.6168175f,56.8088531f,57.001545f,57.1948891f,57.3888893f,57.5835457f,57.778862f,57.9748421f,
58.1714897f,58.3688011f,58.5667801f,58.7654343f,58.9647598f,59.1647644f,59.3654442f,59.5668068f,59.7688522f,59.9715805f,60.1749992f,60.3791046f,
60.5839043f,60.789402f,60.9955902f,61.2024841f,61.4100761f,61.6183739f,61.8273773f,62.0370865f,62.2475128f,62.4586487f,62.6705017f,62.8830757f,
63.0963669f,63.3103828f,63.5251274f,63.7405968f,63.9567986f,64.1737366f,64.3914032f,64.6098175f,64.8289642f,65.0488586f,65.2695007f,65.4908829f,
65.7130203f,65.9359131f,66.1595612f,66.3839722f,66.6091385f,66.8350677f,67.0617676f,67.289238f,67.5174713f,67.7464828f,67.9762726f,68.2068405f,
68.4381943f,68.6703339f,68.9032516f,69.1369629f,69.3714752f,69.6067734f,69.8428726f,70.0797729f,70.3174744f,70.5559845f,70.7953033f,71.0354385f,
71.2763824f,71.5181427f,71.7607269f,72.0041275f,72.2483597f,72.4934235f,72.7393112f,72.9860382f,73.2335968f,73.4819946f,73.7312393f,73.9813309f,
74.2322693f,74.4840546f,74.736702f,74.9901962f,75.2445602f,75.4997787f,75.755867f,76.012825f,76.2706528f,76.5293579f,76.7889328f,77.0493927f,
77.3107376f,77.5729675f,77.8360901f,78.1001053f,78.3650131f,78.6308136f,78.897522f,79.1651382f,79.4336548f,79.7030869f,79.9734344f,80.2446976f,
80.5168762f,80.789978f,81.0640106f,81.338974f,81.6148682f,81.8917007f,82.1694641f,82.4481735f,82.727829f,83.0084381f,83.2899933f,83.5725021f,
83.8559723f,84.1404037f,84.4258041f,84.7121658f,84.9995041f,85.2878113f,85.577095f,85.8673706f,86.1586227f,86.4508591f,86.7440948f,87.0383224f,
87.3335495f,87.629776f,87.9270096f,88.2252426f,88.524498f,88.8247604f,89.1260452f,89.4283524f,89.7316895f,90.0360489f,90.3414383f,90.6478729f,
90.9553375f,91.2638474f,91.57341f,91.8840179f,92.1956787f,92.5084f,92.8221741f,93.1370163f,93.4529343f,93.7699127f,94.0879745f,94.4071121f,
94.7273254f,95.0486374f,95.3710327f,95.694519f,96.019104f,96.3447952f,96.6715851f,96.9994812f,97.3284988f,97.6586227f,97.9898758f,98.3222427f,
98.6557465f,98.9903793f,99.3261414f,99.6630478f,100.001091f,100.340286f,100.680634f,101.022133f,101.364784f,101.708603f,102.053589f,102.39975f,
102.747078f,103.095589f,103.445274f,103.79615f,104.148216f,104.50148f,104.855934f,105.211594f,105.568466f,105.926544f,106.285835f,106.646347f,
107.00808f,107.37104f,107.735229f,108.100662f,108.467323f,108.835236f,109.204391f,109.574806f,109.946472f,110.319397f,110.693588f,111.069054f,
111.445786f,111.823799f,112.203094f,112.583679f,112.965553f,113.348717f,113.733185f,114.118958f,114.506042f,114.894432f,115.284142f,115.675179f,
116.067535f,116.46122f,116.856247f,117.252609f,117.650322f,118.049377f,118.449791f,118.851562f,119.254692f,119.659195f,120.065063f,120.472313f,
120.880943f,121.290962f,121.70237f,122.115173f,122.529373f,122.944984f,123.362f,123.780426f,124.200279f,124.621559f,125.044258f,125.468399f,
125.893974f,126.320992f,126.749458f,127.179382f,127.610764f,128.04361f,128.477921f,128.913696f,129.350967f,129.789703f,130.22995f,130.671677f,
131.114899f,131.559631f,132.005859f,132.453613f,132.902878f,133.353668f,133.806f,134.259857f,134.715256f,135.172195f,135.630676f,136.090729f,
136.552338f,137.015503f,137.480255f,137.946564f,138.414474f,138.883957f,139.355042f,139.827713f,140.302002f,140.777893f,141.255386f,141.734512f,
142.215271f,142.697647f,143.181656f,143.667328f,144.154633f,144.643585f,145.134201f,145.62648f,146.120438f,146.616058f,147.113373f,147.612366f,
148.113052f,148.615433f,149.119522f,149.62532f,150.132828f,150.642075f,151.15303f,151.665726f,152.180161f,152.696335f,153.214279f,153.733963f,
154.255417f,154.778625f,155.303619f,155.830399f,156.358963f,156.889313f,157.421463f,157.955429f,158.491196f,159.028778f,159.568192f,160.109436f,
160.652512f,161.197418f,161.744186f,162.292801f,162.843292f,163.39563f,163.94986f,164.505966f,165.06395f,165.623825f,166.185608f,166.749298f,
167.314896f,167.882401f,168.451843f,169.023224f,169.596527f,170.171783f,170.748993f,171.328156f,171.909286f,172.492386f,173.077454f,173.66452f,
174.253571f,174.84462f,175.437683f,176.032745f,176.629837f,177.228943f,177.830078f,178.433258f,179.038498f,179.645767f,180.255112f,180.866516f,
181.480011f,182.095566f,182.713211f,183.332962f,183.954803f,184.578766f,185.204834f,185.833038f,186.463364f,187.095825f,187.730438f,188.367203f,
189.006119f,189.647217f,190.290482f,190.935928f,191.583557f,192.233398f,192.885422f,193.539673f,194.196136f,194.854843f,195.515762f,196.17894f,
196.84436f,197.512039f,198.181976f,198.854187f,199.528687f,200.20546f,200.884537f,201.565918f,202.249603f,202.935623f,203.623962f,204.314636f,
205.007645f,205.703018f,206.400742f,207.10083f,207.803299f,208.508133f,209.215378f,209.925018f,210.637054f,211.351517f,212.068405f,212.78772f,
213.509476f,214.233673f,214.960342f,215.689468f,216.421051f,217.155136f,217.891708f,218.630768f,219.372345f,220.11644f,220.863052f,221.612198f,
222.363876f,223.118118f,223.874908f,224.634277f,225.39621f,226.160736f,226.927841f,227.697556f,228.469894f,229.244843f,230.022415f,230.802628f,
231.58548f,232.371002f,233.15918f,233.950027f,234.743561f,235.539795f,236.33873f,237.140366f,237.944717f,238.751801f,239.56163f,240.374191f,
241.189514f,242.007614f,242.828476f,243.65213f,244.478577f,245.307816f,246.139877f,246.974762f,247.812469f,248.65303f,249.496429f,250.342697f,
251.191833f,252.043854f,252.898758f,253.756577f,254.617294f,255.480927f,256.347504f,257.21701f,258.089447f,258.964874f,259.843262f,260.724609f,
261.608948f,262.496307f,263.386688f,264.28006f,265.176453f,266.075928f,266.978424f,267.883972f,268.792633f,269.704346f,270.619141f,271.537079f,
272.458099f,273.382233f,274.30954f,275.23996f,276.173553f,277.110291f,278.050232f,278.993347f,279.939667f,280.889191f,281.841949f,282.797913f,
283.757141f,284.719604f,285.685364f,286.654388f,287.626678f,288.602295f,289.581177f,290.563416f,291.548981f,292.537903f,293.530151f,294.525787f,
295.52478f,296.527161f,297.532959f,298.542145f,299.554779f,300.570831f,301.590363f,302.613312f,303.63974f,304.669678f,305.703064f,306.73999f,
307.780426f,308.824371f,309.871887f,310.922943f,311.97757f,313.035767f,314.097534f,315.162933f,316.231934f,317.304565f,318.380829f,319.460724f,
320.544312f,321.631561f,322.722504f,323.817169f,324.915527f,326.017609f,327.123413f,328.232971f,329.346313f,330.46344f,331.58432f,332.709015f,
333.837555f,334.969879f,336.106079f,337.246124f,338.390015f,339.537811f,340.689484f,341.845062f,343.004578f,344.167999f,345.335388f,346.506744f,
347.682037f,348.861359f,350.044647f,351.231964f,352.423309f,353.618713f,354.818146f,356.021637f,357.229248f,358.440918f,359.656708f,360.876648f,
362.100708f,363.328918f,364.561279f,365.797852f,367.038574f,368.283539f,369.532715f,370.786133f,372.043823f,373.305756f,374.57196f,375.842468f,
377.11731f,378.396454f,379.679932f,380.967773f,382.259979f,383.556549f,384.857544f,386.162933f,387.472778f,388.787048f,390.105774f,391.428955f,
392.756653f,394.088837f,395.425537f,396.766785f,398.112579f,399.462952f,400.817902f,402.177429f,403.541565f,404.910339f,406.283752f,407.661835f,
409.044586f,410.432007f,411.824158f,413.221039f,414.62262f,416.028992f,417.440125f,418.856049f,420.276764f,421.702301f,423.13266f,424.567902f,
426.007965f,427.452942f,428.902832f,430.357635f,431.817352f,433.282043f,434.751678f,436.226318f,437.705963f,439.190613f,440.680298f,442.175049f,
443.674866f,445.179779f,446.689758f,448.204895f,449.725159f,451.25058f,452.781189f,454.316986f,455.857971f,457.404205f,458.955658f,460.51239f,
462.074402f,463.641724f,465.214355f,466.792297f,468.37561f,469.964294f,471.55838f,473.157867f,474.762756f,476.373108f,477.988922f,479.610199f,
481.237f,482.869324f,484.507141f,486.150543f,487.79953f,489.454102f,491.114288f,492.78009f,494.451538f,496.128693f,497.811493f,499.500031f,
501.194275f,502.894287f,504.600037f,506.311615f,508.028961f,509.752136f,511.481171f,513.216064f,514.956848f,516.703552f,518.456116f,520.214661f,
521.979187f,523.749695f,525.526184f,527.308716f,529.097351f,530.891968f,532.692688f,534.499512f,536.3125f,538.131653f,539.956909f,541.788391f,
543.626099f,545.470032f,547.32019f,549.176636f,551.039429f,552.908447f,554.783875f,556.665649f,558.553833f,560.448364f,562.349365f,564.256775f,
566.170715f,568.091064f,570.018005f,571.951416f,573.891418f,575.838013f,577.791199f,579.751038f,581.717468f,583.690613f,585.67041f,587.656982f,
589.650208f,591.650269f,593.657104f,595.670715f,597.691162f,599.718506f,601.752686f,603.793762f,605.841736f,607.896729f,609.958618f,612.027588f,
614.103516f,616.186462f,618.276489f,620.373657f,622.477905f,624.589294f,626.707825f,628.833557f,630.966492f,633.106689f,635.254089f,637.408813f,
639.570862f,641.740234f,643.916931f,646.101013f,648.292542f,650.491516f,652.697876f,654.911804f,657.133179f,659.362122f,661.598572f,663.842651f,
666.09436f,668.353699f,670.620667f,672.895325f,675.177734f,677.467896f,679.765808f,682.071472f,684.38501f,686.70636f,689.035583f,691.372742f,
693.717834f,696.070862f,698.431824f,700.800842f,703.177917f,705.562988f,707.956238f,710.357544f,712.766968f,715.184631f,717.610474f,720.044495f,
722.486816f,724.937439f,727.396362f,729.863647f,732.339233f,734.823242f,737.315735f,739.816589f,742.325989f,744.843872f,747.370361f,749.905334f,
752.448914f,755.00116f,757.562073f,760.131653f,762.7099f,765.296936f,767.892761f,770.497375f,773.11084f,775.733154f,778.36438f,781.004517f,
783.653564f,786.311646f,788.97876f,791.654907f,794.340088f,797.034424f,799.737915f,802.4505f,805.172363f,807.903442f,810.643738f,813.393372f,
816.152344f,818.920654f,821.698303f,824.485474f,827.282043f,830.088074f,832.903687f,835.72876f,838.563477f,841.407837f,844.26178f,847.125427f,
849.998779f,852.881897f,855.77478f,858.67749f,861.590088f,864.512512f,867.444824f,870.387085f,873.339355f,876.301636f,879.273987f,882.256409f,
885.248901f,888.251587f,891.264465f,894.287537f,897.320862f,900.364502f,903.418457f,906.482727f,909.557434f,912.642578f,915.738159f,918.844238f,
921.960876f,925.088074f,928.225891f,931.374329f,934.533508f,937.703308f,940.883911f,944.075317f,947.277527f,950.490601f,953.714539f,956.949463f,
960.195312f,963.452209f,966.720154f,969.999207f,973.289307f,976.590637f,979.903137f,983.226868f,986.56189f,989.908203f,993.265869f,996.634888f,
1000.01538f,1003.40735f,1006.81079f,1010.22583f,1013.6524f,1017.09058f,1020.54047f,1024.00208f};
static const float t_log_lo[2048] = {
2.99572921f,3.39318323f,3.67683554f,3.89755344f,4.0782547f,4.23124599f,4.36390734f,4.4810133f,4.58583164f,4.68069792f,4.76733923f,4.84706879f,
4.92090797f,4.98966837f,5.05400324f,5.11444807f,5.17144632f,5.22537088f,5.27653503f,5.32520866f,5.37162304f,5.41597795f,5.45844889f,5.49918938f,
5.53833485f,5.57600546f,5.61230803f,5.64733934f,5.68118429f,5.71392155f,5.7456212f,5.77634621f,5.80615568f,5.83510208f,5.86323404f,5.89059591f,
5.91722965f,5.94317198f,5.96845818f,5.99312115f,6.01719046f,6.04069376f,6.06365728f,6.08610535f,6.10806036f,6.12954426f,6.15057564f,6.17117405f,
6.19135714f,6.21114016f,6.2305398f,6.24957037f,6.26824522f,6.28657818f,6.30458069f,6.32226467f,6.33964157f,6.35672188f,6.37351513f,6.39003086f,
6.40627861f,6.42226648f,6.43800259f,6.45349503f,6.46875095f,6.483778f,6.49858236f,6.51317072f,6.52754927f,6.54172373f,6.55570078f,6.56948471f,
6.58308125f,6.59649515f,6.60973215f,6.62279558f,6.63569117f,6.64842176f,6.6609931f,6.67340803f,6.68567085f,6.6977849f,6.70975399f,6.72158146f,
6.73327112f,6.74482536f,6.75624752f,6.76754093f,6.77870798f,6.78975201f,6.80067492f,6.81148005f,6.82216978f,6.83274651f,6.8432126f,6.85356998f,
6.86382151f,6.8739686f,6.88401413f,6.89395952f,6.90380716f,6.91355848f,6.92321587f,6.93278074f,6.94225502f,6.95164061f,6.96093893f,6.97015142f,
6.97927952f,6.9883256f,6.99729013f,7.00617504f,7.01498222f,7.02371216f,7.03236628f,7.04094648f,7.04945374f,7.05788898f,7.06625366f,7.0745492f,
7.08277655f,7.09093666f,7.09903049f,7.10705948f,7.11502457f,7.12292671f,7.13076687f,7.13854599f,7.14626503f,7.15392494f,7.16152668f,7.1690712f,
7.17655945f,7.18399143f,7.19136906f,7.19869232f,7.20596266f,7.21318007f,7.22034597f,7.22746134f,7.23452568f,7.24154091f,7.2485075f,7.25542545f,
7.2622962f,7.26911974f,7.27589703f,7.28262901f,7.2893157f,7.29595804f,7.30255651f,7.30911207f,7.31562471f,7.32209492f,7.32852364f,7.33491182f,
7.341259f,7.34756613f,7.35383368f,7.3600626f,7.36625242f,7.37240458f,7.37851906f,7.38459635f,7.39063692f,7.39664078f,7.40260935f,7.40854216f,
7.41444016f,7.42030382f,7.42613316f,7.43192863f,7.43769073f,7.44341946f,7.44911623f,7.4547801f,7.4604125f,7.46601343f,7.47158289f,7.47712135f,
7.48262978f,7.48810768f,7.49355555f,7.49897432f,7.50436401f,7.50972414f,7.51505613f,7.52035999f,7.52563572f,7.53088379f,7.5361042f,7.54129791f,
7.54646444f,7.55160475f,7.55671835f,7.5618062f,7.56686831f,7.57190466f,7.57691622f,7.5819025f,7.58686399f,7.59180117f,7.59671402f,7.60160255f,
7.60646772f,7.61130905f,7.61612749f,7.62092257f,7.62569475f,7.63044405f,7.63517094f,7.63987589f,7.64455843f,7.64921951f,7.65385914f,7.65847683f,
7.66307354f,7.66764927f,7.67220402f,7.67673826f,7.681252f,7.68574524f,7.69021845f,7.69467163f,7.69910526f,7.70351934f,7.70791435f,7.71228981f,
7.71664619f,7.72098351f,7.72530222f,7.72960234f,7.73388433f,7.73814774f,7.74239302f,7.74662066f,7.75083017f,7.75502205f,7.75919676f,7.76335382f,
7.76749372f,7.77161694f,7.7757225f,7.77981186f,7.78388453f,7.7879405f,7.79197979f,7.79600334f,7.80001068f,7.80400181f,7.8079772f,7.81193686f,
7.81588078f,7.81980944f,7.82372236f,7.82762051f,7.83150291f,7.83537102f,7.83922386f,7.84306192f,7.8468852f,7.85069418f,7.85448837f,7.85826826f,
7.86203432f,7.8657856f,7.86952353f,7.87324715f,7.87695694f,7.88065338f,7.88433599f,7.88800478f,7.89166069f,7.89530277f,7.89893198f,7.90254784f,
7.90615082f,7.90974092f,7.91331816f,7.91688251f,7.92043447f,7.92397356f,7.92750025f,7.93101454f,7.93451691f,7.9380064f,7.94148445f,7.94494963f,
7.94840336f,7.95184517f,7.95527506f,7.9586935f,7.96210003f,7.96549511f,7.96887875f,7.97225094f,7.97561169f,7.97896099f,7.98229933f,7.9856267f,
7.9889431f,7.99224806f,7.99554253f,7.99882603f,8.00209904f,8.0053606f,8.00861263f,8.01185322f,8.01508427f,8.01830387f,8.02151394f,8.02471352f,
8.0279026f,8.03108215f,8.03425121f,8.03740978f,8.04055882f,8.04369831f,8.04682732f,8.04994774f,8.05305767f,8.05615807f,8.05924797f,8.06232929f,
8.06540108f,8.06846333f,8.07151699f,8.07456017f,8.07759476f,8.08061981f,8.08363628f,8.08664322f,8.08964157f,8.09263039f,8.09561062f,8.09858227f,
8.10154438f,8.10449791f,8.10744381f,8.11038017f,8.11330795f,8.11622715f,8.11913776f,8.12203979f,8.1249342f,8.12782001f,8.13069725f,8.1335659f,
8.13642693f,8.13927937f,8.14212418f,8.1449604f,8.147789f,8.15060902f,8.15342236f,8.15622616f,8.15902328f,8.16181278f,8.1645937f,8.16736698f,
8.17013359f,8.17289162f,8.17564201f,8.17838478f,8.18112087f,8.18384933f,8.18656921f,8.18928337f,8.19198895f,8.19468784f,8.19737911f,8.20006371f,
8.20274067f,8.20541f,8.20807266f,8.21072865f,8.213377f,8.21601868f,8.21865368f,8.22128201f,8.2239027f,8.22651672f,8.22912407f,8.23172379f,
8.23431778f,8.2369051f,8.23948479f,8.24205875f,8.24462605f,8.24718666f,8.2497406f,8.25228786f,8.25482845f,8.25736332f,8.25989151f,8.26241302f,
8.26492882f,8.26743793f,8.26994038f,8.2724371f,8.27492714f,8.27741146f,8.27989006f,8.28236198f,8.28482723f,8.28728676f,8.28974056f,8.29218864f,
8.29463005f,8.29706573f,8.2994957f,8.30191994f,8.3043375f,8.3067503f,8.30915642f,8.31155777f,8.31395245f,8.3163414f,8.31872463f,8.3211031f,
8.32347488f,8.3258419f,8.32820225f,8.33055782f,8.33290768f,8.33525276f,8.33759117f,8.33992481f,8.34225273f,8.34457493f,8.34689236f,8.34920406f,
8.351511f,8.35381222f,8.35610867f,8.35839844f,8.36068439f,8.36296463f,8.3652401f,8.36750984f,8.36977386f,8.37203407f,8.37428856f,8.37653828f,
8.37878227f,8.3810215f,8.38325596f,8.38548565f,8.38770962f,8.38992977f,8.3921442f,8.39435387f,8.39655876f,8.39875889f,8.40095425f,8.40314388f,
8.4053297f,8.40751076f,8.40968704f,8.4118576f,8.41402435f,8.41618633f,8.41834354f,8.42049599f,8.42264462f,8.42478752f,8.42692661f,8.42906094f,
8.43119049f,8.43331528f,8.43543625f,8.43755245f,8.43966389f,8.44177151f,8.44387436f,8.44597244f,8.44806671f,8.45015621f,8.4522419f,8.45432281f,
8.45639896f,8.4584713f,8.46053982f,8.46260357f,8.46466255f,8.46671867f,8.46876907f,8.47081661f,8.47285938f,8.47489738f,8.47693157f,8.47896194f,
8.4809885f,8.48301029f,8.48502827f,8.48704243f,8.48905182f,8.4910574f,8.49306011f,8.49505711f,8.49705124f,8.49904156f,8.50102711f,8.50300884f,
8.50498676f,8.50696087f,8.50893116f,8.51089764f,8.5128603f,8.51481915f,8.51677418f,8.5187254f,8.52067184f,8.52261543f,8.52455521f,8.52649117f,
8.52842331f,8.53035164f,8.53227615f,8.53419781f,8.53611469f,8.53802872f,8.53993893f,8.54184532f,8.5437479f,8.54564667f,8.54754257f,8.54943466f,
8.55132294f,8.5532074f,8.555089f,8.55696678f,8.55884075f,8.56071186f,8.56257915f,8.56444263f,8.56630325f,8.56816006f,8.57001305f,8.57186317f,
8.57370949f,8.57555294f,8.57739258f,8.57922935f,8.58106232f,8.58289146f,8.5847187f,8.58654118f,8.58836079f,8.59017754f,8.59199047f,8.59380054f,
8.5956068f,8.5974102f,8.59920979f,8.60100651f,8.60280037f,8.60459042f,8.6063776f,8.60816193f,8.60994244f,8.61172009f,8.61349487f,8.61526585f,
8.61703396f,8.61879921f,8.6205616f,8.62232018f,8.62407589f,8.62582874f,8.62757778f,8.62932491f,8.63106823f,8.63280869f,8.63454628f,8.63628101f,
8.63801193f,8.63974094f,8.64146614f,8.64318848f,8.64490795f,8.64662457f,8.64833832f,8.65004921f,8.65175724f,8.65346146f,8.65516376f,8.65686321f,
8.65855885f,8.66025257f,8.66194248f,8.66363049f,8.66531563f,8.66699696f,8.66867638f,8.67035294f,8.67202663f,8.67369652f,8.67536449f,8.67702961f,
8.67869282f,8.68035221f,8.68200874f,8.68366337f,8.68531418f,8.68696308f,8.68860912f,8.6902523f,8.69189262f,8.69353104f,8.69516563f,8.69679832f,
8.69842815f,8.70005512f,8.70168018f,8.70330238f,8.70492172f,8.7065382f,8.70815182f,8.70976353f,8.71137238f,8.71297836f,8.71458244f,8.71618366f,
8.71778202f,8.71937847f,8.72097206f,8.72256279f,8.72415161f,8.72573662f,8.72732067f,8.72890091f,8.73048019f,8.73205566f,8.73362923f,8.73519993f,
8.73676872f,8.73833466f,8.73989868f,8.74145985f,8.74301815f,8.74457455f,8.74612808f,8.74767971f,8.74922848f,8.75077534f,8.75232029f,8.75386143f,
8.75540161f,8.75693798f,8.7584734f,8.76000595f,8.76153564f,8.76306343f,8.76458931f,8.76611233f,8.76763248f,8.76915169f,8.77066803f,8.77218151f,
8.77369308f,8.77520275f,8.77670956f,8.77821445f,8.77971649f,8.78121662f,8.78271484f,8.78421116f,8.78570461f,8.78719616f,8.78868484f,8.79017162f,
8.79165649f,8.7931385f,8.79461956f,8.7960968f,8.79757309f,8.79904652f,8.80051804f,8.80198765f,8.80345535f,8.8049202f,8.80638313f,8.80784416f,
8.80930233f,8.81075954f,8.8122139f,8.81366634f,8.81511593f,8.81656456f,8.81801033f,8.81945419f,8.82089615f,8.8223362f,8.82377338f,8.82520962f,
8.82664299f,8.82807446f,8.82950401f,8.83093166f,8.83235645f,8.83378029f,8.83520126f,8.83662128f,8.83803844f,8.8394537f,8.84086704f,8.84227848f,
8.84368706f,8.84509468f,8.8465004f,8.84790325f,8.84930515f,8.85070419f,8.85210228f,8.85349751f,8.85489178f,8.85628319f,8.85767269f,8.85906029f,
8.86044693f,8.86183071f,8.86321259f,8.86459255f,8.86597061f,8.86734772f,8.86872196f,8.8700943f,8.87146473f,8.87283421f,8.87420082f,8.87556648f,
8.87692928f,8.87829113f,8.87965012f,8.88100815f,8.88236332f,8.88371754f,8.88506985f,8.88642025f,8.88776875f,8.88911533f,8.89046001f,8.89180374f,
8.89314461f,8.89448452f,8.89582157f,8.89715767f,8.89849186f,8.89982414f,8.90115547f,8.90248394f,8.9038105f,8.90513611f,8.90645981f,8.9077816f,
8.90910149f,8.91041946f,8.91173649f,8.91305161f,8.91436481f,8.91567612f,8.91698551f,8.918293f,8.91959953f,8.92090416f,8.92220688f,8.92350864f,
8.92480755f,8.9261055f,8.92740154f,8.92869568f,8.92998886f,8.93128014f,8.9325695f,8.93385696f,8.93514347f,8.93642712f,8.93770981f,8.93899155f,
8.94027138f,8.94154835f,8.94282532f,8.94409943f,8.94537258f,8.94664383f,8.94791412f,8.94918156f,8.95044804f,8.95171356f,8.95297718f,8.95423889f,
8.9554987f,8.95675755f,8.95801449f,8.95926952f,8.96052361f,8.96177578f,8.96302605f,8.96427536f,8.96552277f,8.96676922f,8.96801376f,8.9692564f,
8.97049809f,8.97173786f,8.97297668f,8.97421265f,8.97544861f,8.97668171f,8.97791386f,8.97914505f,8.98037434f,8.98160172f,8.98282814f,8.98405266f,
8.98527622f,8.98649788f,8.98771763f,8.98893642f,8.99015331f,8.99136925f,8.99258327f,8.99379635f,8.99500751f,8.99621773f,8.99742603f,8.99863243f,
8.99983788f,9.00104237f,9.00224495f,9.00344563f,9.00464535f,9.00584412f,9.00704098f,9.00823593f,9.00942993f,9.01062298f,9.01181412f,9.01300335f,
9.01419163f,9.01537895f,9.01656437f,9.01774788f,9.01893044f,9.02011204f,9.02129173f,9.02247047f,9.02364731f,9.02482319f,9.02599716f,9.02717018f,
9.02834225f,9.02951241f,9.03068161f,9.03184891f,9.0330143f,9.03417969f,9.03534317f,9.03650475f,9.03766537f,9.03882504f,9.0399828f,9.0411396f,
9.04229546f,9.0434494f,9.04460144f,9.04575348f,9.04690266f,9.04805183f,9.0491991f,9.05034542f,9.05148983f,9.05263329f,9.05377579f,9.05491638f,
9.05605602f,9.05719376f,9.05833149f,9.05946636f,9.06060123f,9.0617342f,9.06286621f,9.06399632f,9.06512547f,9.06625366f,9.06738091f,9.06850624f,
9.06962967f,9.0707531f,9.07187462f,9.07299519f,9.07411385f,9.07523155f,9.0763483f,9.0774641f,9.078578f,9.07969093f,9.08080292f,9.08191299f,
9.08302212f,9.08413029f,9.0852375f,9.08634281f,9.08744717f,9.08854961f,9.08965206f,9.0907526f,9.09185219f,9.09294987f,9.09404755f,9.09514332f,
9.09623814f,9.09733105f,9.098423f,9.09951401f,9.10060406f,9.10169315f,9.10278034f,9.10386658f,9.10495186f,9.10603619f,9.10711861f,9.10820007f,
9.10928059f,9.11036015f,9.1114378f,9.11251545f,9.11359119f,9.11466503f,9.11573887f,9.1168108f,9.11788273f,9.11895275f,9.12002182f,9.12108898f,
9.12215614f,9.1232214f,9.1242857f,9.12534904f,9.12641048f,9.12747192f,9.12853146f,9.12959003f,9.13064766f,9.13170433f,9.13276005f,9.13381386f,
9.13486671f,9.13591957f,9.13696957f,9.13801956f,9.1390686f,9.14011574f,9.14116287f,9.1422081f,9.14325237f,9.14429569f,9.14533806f,9.14637852f,
9.14741898f,9.14845753f,9.14949608f,9.15053272f,9.15156841f,9.15260315f,9.15363598f,9.15466881f,9.15569973f,9.15673065f,9.15775967f,9.15878773f,
9.15981483f,9.16084099f,9.16186619f,9.16289043f,9.16391373f,9.16493511f,9.1659565f,9.16697598f,9.1679945f,9.16901207f,9.17002964f,9.1710453f,
9.17206001f,9.17307281f,9.17408562f,9.17509747f,9.17610836f,9.17711735f,9.17812634f,9.17913342f,9.18013954f,9.18114567f,9.18214989f,9.18315315f,
9.18415546f,9.18515778f,9.18615818f,9.18715763f,9.18815613f,9.18915272f,9.19014931f,9.19114494f,9.19213963f,9.19313335f,9.19412518f,9.195117f,
9.19610786f,9.19709682f,9.19808578f,9.19907379f,9.20005989f,9.20104599f,9.20203018f,9.20301437f,9.20399666f,9.20497894f,9.20595932f,9.2069397f,
9.20791817f,9.20889664f,9.2098732f,9.21084881f,9.21182442f,9.21279812f,9.21377182f,9.21474361f,9.21571541f,9.2166853f,9.21765518f,9.21862316f,
9.21959114f,9.22055721f,9.22152328f,9.2224884f,9.22345161f,9.22441483f,9.22537708f,9.22633743f,9.22729778f,9.22825718f,9.22921562f,9.23017216f,
9.23112869f,9.23208427f,9.2330389f,9.23399258f,9.2349453f,9.23589706f,9.23684883f,9.23779869f,9.2387476f,9.23969555f,9.2406435f,9.24158955f,
9.24253559f,9.24347973f,9.24442387f,9.24536705f,9.24630928f,9.2472496f,9.24818993f,9.2491293f,9.25006771f,9.25100613f,9.25194263f,9.25287819f,
9.25381279f,9.25474739f,9.25568104f,9.25661278f,9.25754452f,9.2584753f,9.25940514f,9.26033401f,9.26126194f,9.26218891f,9.26311493f,9.26404095f,
9.26496506f,9.26588917f,9.26681232f,9.26773357f,9.26865482f,9.26957512f,9.27049541f,9.2714138f,9.27233124f,9.27324867f,9.2741642f,9.27507973f,
9.2759943f,9.27690792f,9.27782059f,9.2787323f,9.27964401f,9.28055382f,9.28146362f,9.28237247f,9.28328037f,9.28418732f,9.28509331f,9.28599834f,
9.28690338f,9.28780651f,9.28870964f,9.28961182f,9.29051304f,9.29141331f,9.29231262f,9.29321194f,9.2941103f,9.29500675f,9.29590321f,9.29679871f,
9.29769421f,9.2985878f,9.29948139f,9.30037403f,9.30126572f,9.30215645f,9.30304623f,9.30393505f,9.30482388f,9.30571175f,9.30659866f,9.30748463f,
9.30836964f,9.30925465f,9.31013775f,9.31102085f,9.311903f,9.31278419f,9.31366539f,9.31454468f,9.31542397f,9.3163023f,9.31717968f,9.31805706f,
9.31893253f,9.31980801f,9.32068253f,9.32155609f,9.3224287f,9.32330132f,9.32417297f,9.32504368f,9.32591343f,9.32678223f,9.32765102f,9.32851887f,
9.32938576f,9.33025169f,9.33111668f,9.33198166f,9.33284569f,9.33370876f,9.33457088f,9.33543301f,9.33629322f,9.33715343f,9.33801365f,9.33887196f,
9.33973026f,9.34058666f,9.34144402f,9.34229946f,9.34315395f,9.34400845f,9.34486198f,9.34571552f,9.34656715f,9.34741879f,9.34826946f,9.34911919f,
9.34996891f,9.35081673f,9.35166454f,9.35251141f,9.35335827f,9.35420418f,9.35504913f,9.35589314f,9.35673618f,9.35757923f,9.35842133f,9.35926247f,
9.36010361f,9.36094284f,9.36178207f,9.36262131f,9.36345863f,9.36429596f,9.36513233f,9.36596775f,9.36680317f,9.36763763f,9.36847115f,9.3693037f,
9.37013626f,9.37096786f,9.37179852f,9.37262917f,9.37345886f,9.37428761f,9.37511539f,9.37594318f,9.37677002f,9.3775959f,9.37842083f,9.37924576f,
9.38006973f,9.38089275f,9.38171577f,9.38253784f,9.38335896f,9.38418007f,9.38500023f,9.38581944f,9.38663769f,9.38745594f,9.38827324f,9.38908958f,
9.38990593f,9.39072132f,9.39153576f,9.39234924f,9.39316273f,9.39397526f,9.39478779f,9.39559841f,9.39640903f,9.39721966f,9.39802837f,9.39883709f,
9.39964581f,9.40045261f,9.40125942f,9.40206623f,9.40287113f,9.40367603f,9.40447998f,9.40528393f,9.40608692f,9.40688896f,9.40769005f,9.40849113f,
9.40929127f,9.4100914f,9.41089058f,9.4116888f,9.41248608f,9.41328335f,9.41407967f,9.41487598f,9.41567135f,9.41646576f,9.41725922f,9.41805267f,
9.41884518f,9.41963768f,9.42042923f,9.42121983f,9.42200947f,9.42279911f,9.42358875f,9.42437649f,9.42516422f,9.425951f,9.42673779f,9.42752361f,
9.42830849f,9.42909336f,9.42987728f,9.4306612f,9.43144321f,9.43222523f,9.43300724f,9.4337883f,9.43456841f,9.43534851f,9.43612671f,9.43690586f,
9.43768311f,9.43846035f,9.43923759f,9.44001389f,9.44078922f,9.44156361f,9.44233799f,9.44311142f,9.44388485f,9.44465733f,9.44542885f,9.44620037f,
9.44697094f,9.44774151f,9.44851112f,9.44927979f,9.45004749f,9.45081615f,9.45158291f,9.45234966f,9.45311546f,9.45388031f,9.45464516f,9.45541f,
9.45617294f,9.45693684f,9.45769882f,9.45846081f,9.45922184f,9.45998287f,9.46074295f,9.46150208f,9.4622612f,9.46301937f,9.46377754f,9.46453476f,
9.46529198f,9.46604729f,9.46680355f,9.46755791f,9.46831226f,9.46906662f,9.46982002f,9.47057247f,9.47132492f,9.47207642f,9.47282696f,9.4735775f,
9.47432709f,9.47507668f,9.47582531f,9.47657394f,9.47732162f,9.47806835f,9.47881508f,9.47956085f,9.48030663f,9.48105145f,9.48179531f,9.48253918f,
9.48328209f,9.484025f,9.48476696f,9.48550892f,9.48624992f,9.48698997f,9.48773003f,9.48846912f,9.48920822f,9.48994637f,9.49068451f,9.4914217f,
9.49215794f,9.49289417f,9.49362946f,9.49436474f,9.49509907f,9.49583244f,9.49656582f,9.49729919f,9.49803162f,9.49876308f,9.49949455f,9.50022507f,
9.50095558f,9.50168514f,9.50241375f,9.50314236f,9.50387096f,9.50459862f,9.50532532f,9.50605202f,9.50677776f,9.50750256f,9.50822735f,9.50895214f,
9.50967598f,9.51039886f,9.51112175f,9.51184464f,9.51256561f,9.51328754f,9.51400757f,9.51472855f,9.51544762f,9.51616669f,9.51688576f,9.51760387f,
9.51832104f,9.5190382f,9.51975441f,9.52047062f,9.52118683f,9.52190113f,9.52261639f,9.52332973f,9.52404308f,9.52475643f,9.52546883f,9.52618122f,
9.52689266f,9.52760315f,9.52831364f,9.52902412f,9.52973366f,9.53044224f,9.53115082f,9.53185844f,9.53256607f,9.53327274f,9.53397942f,9.53468513f,
9.53539085f,9.53609562f,9.53680038f,9.5375042f,9.53820801f,9.53891087f,9.53961277f,9.54031467f,9.54101658f,9.54171753f,9.54241753f,9.54311752f,
9.54381752f,9.54451656f,9.54521465f,9.54591274f,9.54661083f,9.54730797f,9.54800415f,9.54870033f,9.54939651f,9.55009079f,9.55078602f,9.55148029f,
9.55217361f,9.55286694f,9.5535593f,9.55425167f,9.55494404f,9.55563545f,9.55632591f,9.55701637f,9.55770588f,9.55839539f,9.55908489f,9.55977249f,
9.56046104f,9.56114864f,9.56183529f,9.56252193f,9.56320763f,9.56389332f,9.56457901f,9.56526375f,9.56594753f,9.56663132f,9.5673151f,9.56799793f,
9.56867981f,9.56936169f,9.57004356f,9.57072449f,9.57140446f,9.57208443f,9.5727644f,9.57344341f,9.57412148f,9.57479954f,9.5754776f,9.57615471f,
9.57683182f,9.57750797f,9.57818413f,9.57885933f,9.57953453f,9.58020878f,9.58088303f,9.58155632f,9.58222961f,9.58290195f,9.5835743f,9.58424664f,
9.58491802f,9.58558846f,9.58625889f,9.58692932f,9.5875988f,9.58826733f,9.58893681f,9.58960438f,9.59027195f,9.59093952f,9.59160614f,9.59227276f,
9.59293938f,9.59360409f,9.59426975f,9.59493446f,9.59559822f,9.59626198f,9.59692574f,9.59758854f,9.59825134f,9.59891319f,9.59957409f,9.60023594f,
9.60089588f,9.60155678f,9.60221672f,9.60287571f,9.6035347f,9.60419369f,9.60485172f,9.6055088f,9.60616589f,9.60682297f,9.6074791f,9.60813522f,
9.6087904f,9.60944557f,9.61010075f,9.61075497f,9.61140823f,9.6120615f,9.61271477f,9.61336708f,9.61401939f,9.61467075f,9.61532211f,9.61597347f,
9.61662388f,9.61727333f,9.61792278f,9.61857224f,9.61922073f,9.61986923f,9.62051678f,9.62116432f,9.62181187f,9.62245846f,9.6231041f,9.62374973f,
9.62439537f,9.62504005f,9.62568474f,9.62632847f,9.6269722f,9.62761593f,9.62825871f,9.62890148f,9.6295433f,9.63018513f,9.630826f,9.63146687f,
9.63210678f,9.63274765f,9.63338661f,9.63402557f,9.63466454f,9.63530254f,9.63594055f,9.63657856f,9.63721561f,9.63785267f,9.63848877f,9.63912487f,
9.63976002f,9.64039516f,9.64103031f,9.64166451f,9.64229774f,9.64293194f,9.64356422f,9.64419746f,9.64482975f,9.64546108f,9.64609337f,9.64672375f,
9.64735508f,9.64798546f,9.64861488f,9.64924431f,9.64987373f,9.6505022f,9.65113068f,9.65175819f,9.65238571f,9.65301323f,9.65363979f,9.65426636f,
9.65489197f,9.65551758f,9.65614319f,9.65676785f,9.6573925f,9.6580162f,9.65863991f,9.65926266f,9.65988636f,9.66050816f,9.66112995f,9.66175175f,
9.66237354f,9.66299438f,9.66361523f,9.66423512f,9.664855f,9.66547394f,9.66609287f,9.66671181f,9.66732979f,9.66794777f,9.6685648f,9.66918182f,
9.66979885f,9.67041492f,9.671031f,9.67164707f,9.67226219f,9.67287636f,9.67349148f,9.67410564f,9.67471886f,9.67533207f,9.67594528f,9.67655754f,
9.6771698f,9.67778111f,9.67839336f,9.67900372f,9.67961502f,9.68022537f,9.68083477f,9.68144417f,9.68205357f,9.68266201f,9.68327045f,9.6838789f,
9.68448639f,9.68509388f,9.68570137f,9.68630791f,9.68691349f,9.68752003f,9.68812466f,9.68873024f,9.68933487f,9.6899395f,9.69054317f,9.69114685f,
9.69175053f,9.69235325f,9.69295597f,9.69355774f,9.69415951f,9.69476128f,9.69536209f,9.69596291f,9.69656372f,9.69716358f,9.69776344f,9.69836235f,
9.69896221f,9.69956017f,9.70015812f,9.70075607f,9.70135403f,9.70195103f,9.70254803f,9.70314407f,9.70374012f,9.70433617f,9.70493126f,9.70552635f,
9.70612144f,9.70671558f,9.70730972f,9.70790386f,9.70849705f,9.70908928f,9.70968246f,9.7102747f,9.71086597f,9.71145821f,9.71204853f,9.71263981f,
9.71323013f,9.71382046f,9.71440983f,9.7149992f,9.71558857f,9.71617699f,9.7167654f,9.71735382f,9.71794128f,9.71852875f,9.71911621f,9.71970272f,
9.72028923f,9.72087479f,9.72146034f,9.7220459f,9.7226305f,9.7232151f,9.72379971f,9.72438335f,9.724967f,9.72555065f,9.72613335f,9.72671604f,
9.72729778f,9.72788048f,9.72846127f,9.72904301f,9.72962379f,9.73020458f,9.73078442f,9.73136425f,9.73194408f,9.73252296f,9.73310184f,9.73368073f,
9.73425865f,9.73483658f,9.73541355f,9.73599148f,9.7365675f,9.73714447f,9.73772049f,9.73829651f,9.73887157f,9.73944759f,9.74002171f,9.74059677f,
9.74117088f,9.741745f,9.74231815f,9.74289131f,9.74346447f,9.74403667f,9.74460888f,9.74518108f,9.74575233f,9.74632359f,9.74689484f,9.74746513f,
9.74803543f,9.74860573f,9.74917507f,9.74974442f,9.75031376f,9.75088215f,9.75145054f,9.75201797f,9.75258636f,9.7531538f,9.75372028f,9.75428677f,
9.75485325f,9.75541973f,9.75598526f,9.75655079f,9.75711632f,9.75768089f,9.75824547f,9.75880909f,9.75937366f,9.75993633f,9.76049995f,9.76106262f,
9.76162529f,9.76218796f,9.76274967f,9.76331139f,9.76387215f,9.76443386f,9.76499462f,9.76555443f,9.76611423f,9.76667404f,9.76723385f,9.7677927f,
9.76835155f,9.76891041f,9.76946831f,9.77002621f,9.77058411f,9.77114105f,9.771698f,9.77225494f,9.77281094f,9.77336693f,9.77392292f,9.77447796f,
9.775033f,9.77558804f,9.77614212f,9.77669621f,9.77725029f,9.77780437f,9.77835751f,9.77890968f,9.77946281f,9.78001499f,9.78056717f,9.78111839f,
9.78167057f,9.78222084f,9.78277206f,9.78332233f,9.7838726f,9.78442287f,9.78497219f,9.78552151f,9.78607082f,9.78661919f,9.78716755f,9.78771591f,
9.78826332f,9.78881073f,9.78935814f,9.78990459f,9.79045105f,9.79099751f,9.79154396f,9.79208946f,9.79263496f,9.79317951f,9.79372501f,9.79426956f,
9.79481316f,9.7953577f,9.7959013f,9.79644394f,9.79698753f,9.79753017f,9.79807281f,9.7986145f,9.79915619f,9.79969788f,9.80023956f,9.8007803f,
9.80132103f,9.80186081f,9.80240154f,9.80294132f,9.8034811f,9.80401993f,9.80455875f,9.80509758f,9.80563545f,9.80617428f,9.8067112f,9.80724907f,
9.80778599f,9.80832291f,9.80885983f,9.80939579f,9.80993176f,9.81046772f,9.81100368f,9.8115387f,9.81207371f,9.81260777f,9.81314278f,9.81367588f,
9.81420994f,9.814744f,9.8152771f,9.81580925f,9.81634235f,9.8168745f,9.81740665f,9.8179388f,9.81847f,9.8190012f,9.81953239f,9.82006264f,
9.82059288f,9.82112312f,9.82165241f,9.82218266f,9.82271194f,9.82324028f,9.82376957f,9.8242979f,9.82482529f,9.82535362f,9.825881f,9.82640839f,
9.82693481f,9.8274622f,9.82798862f,9.82851505f,9.82904053f,9.829566f,9.83009148f,9.83061695f,9.83114147f,9.83166599f,9.83218956f,9.83271408f,
9.83323765f,9.83376122f,9.83428383f,9.8348074f,9.83533001f,9.83585167f,9.83637428f,9.83689594f,9.8374176f,9.83793831f,9.83845901f,9.83897972f,
9.83950043f,9.84002113f,9.84054089f,9.84106064f,9.84157944f,9.84209824f,9.84261703f,9.84313583f,9.84365463f,9.84417248f,9.84469032f,9.84520721f,
9.84572411f,9.846241f,9.84675789f,9.84727478f,9.84779072f,9.84830666f,9.84882164f,9.84933758f,9.84985256f,9.85036755f,9.85088158f,9.85139561f,
9.85190964f,9.85242367f,9.85293674f,9.85345078f,9.8539629f,9.85447598f,9.8549881f,9.85550022f,9.85601234f,9.85652447f,9.85703564f,9.85754681f,
9.85805702f,9.85856819f,9.85907841f,9.85958862f,9.86009789f,9.8606081f,9.86111736f,9.86162567f,9.86213493f,9.86264324f,9.86315155f,9.86365986f,
9.86416721f,9.86467457f,9.86518192f,9.86568928f,9.86619568f,9.86670208f,9.86720848f,9.86771393f,9.86821938f,9.86872482f,9.86923027f,9.86973572f,
9.87024021f,9.87074471f,9.87124825f,9.87175274f,9.87225628f,9.87275982f,9.87326241f,9.87376499f,9.87426758f,9.87477016f,9.87527275f,9.87577438f,
9.87627602f,9.87677765f,9.87727833f,9.87777901f,9.87827969f,9.87878036f,9.87928009f,9.87978077f,9.88027954f,9.88077927f,9.88127804f,9.88177681f,
9.88227558f,9.88277435f,9.88327217f,9.88376999f,9.88426781f,9.88476562f,9.88526249f,9.88575935f,9.88625622f,9.88675213f,9.88724804f,9.88774395f,
9.88823986f,9.88873577f,9.88923073f,9.88972569f,9.89021969f,9.89071465f,9.89120865f,9.89170265f,9.89219666f,9.8926897f,9.89318275f,9.8936758f,
9.89416885f,9.89466095f,9.89515305f,9.89564514f,9.89613724f,9.89662838f,9.89711952f,9.89761066f,9.89810181f,9.898592f,9.89908218f,9.89957237f,
9.90006256f,9.9005518f,9.90104103f,9.90153027f,9.9020195f,9.90250778f,9.90299606f,9.90348434f};
static const float t_log_hi[2048] = {
2.99573517f,3.39318919f,3.6768415f,3.8975594f,4.07826042f,4.23125219f,4.36391354f,4.48101902f,4.58583736f,4.68070364f,4.76734543f,4.84707451f,
4.92091417f,4.98967409f,5.05400896f,5.11445379f,5.17145252f,5.22537661f,5.27654123f,5.32521486f,5.37162876f,5.41598415f,5.45845509f,5.4991951f,
5.53834057f,5.57601118f,5.61231422f,5.64734507f,5.68119049f,5.71392775f,5.74562693f,5.77635241f,5.8061614f,5.8351078f,5.86323977f,5.89060211f,
5.91723537f,5.94317818f,5.96846437f,5.99312735f,6.01719618f,6.04069948f,6.06366301f,6.08611155f,6.10806656f,6.12954998f,6.15058184f,6.17118025f,
6.19136286f,6.21114635f,6.230546f,6.24957657f,6.26825142f,6.2865839f,6.30458689f,6.32227087f,6.33964777f,6.35672808f,6.37352133f,6.39003706f,
6.40628481f,6.42227268f,6.43800879f,6.45350122f,6.46875715f,6.48378372f,6.49858809f,6.51317644f,6.52755499f,6.54172993f,6.5557065f,6.56949043f,
6.58308697f,6.59650135f,6.60973787f,6.62280178f,6.63569689f,6.64842796f,6.66099882f,6.67341375f,6.68567657f,6.69779062f,6.70976019f,6.72158766f,
6.73327684f,6.74483109f,6.75625372f,6.76754665f,6.77871418f,6.78975773f,6.80068111f,6.81148624f,6.82217598f,6.8327527f,6.84321833f,6.85357618f,
6.86382723f,6.8739748f,6.88401985f,6.89396572f,6.90381289f,6.91356468f,6.92322206f,6.93278694f,6.94226122f,6.9516468f,6.96094465f,6.97015715f,
6.97928572f,6.98833132f,6.99729633f,7.00618124f,7.01498795f,7.02371788f,7.03237247f,7.04095268f,7.04945946f,7.05789518f,7.06625986f,7.0745554f,
7.08278227f,7.09094238f,7.09903669f,7.10706568f,7.11503077f,7.12293291f,7.13077307f,7.13855219f,7.14627123f,7.15393114f,7.16153288f,7.1690774f,
7.17656517f,7.18399763f,7.19137478f,7.19869852f,7.20596838f,7.21318626f,7.22035217f,7.22746706f,7.23453188f,7.24154711f,7.24851322f,7.25543165f,
7.26230192f,7.26912546f,7.27590322f,7.28263474f,7.2893219f,7.29596424f,7.30256271f,7.30911779f,7.31563044f,7.32210112f,7.32852983f,7.33491755f,
7.34126472f,7.34757233f,7.35383987f,7.36006832f,7.36625862f,7.37241077f,7.37852478f,7.38460207f,7.39064264f,7.39664698f,7.40261555f,7.40854836f,
7.41444635f,7.42031002f,7.42613888f,7.43193436f,7.43769646f,7.44342566f,7.44912195f,7.4547863f,7.4604187f,7.46601915f,7.47158861f,7.47712755f,
7.4826355f,7.4881134f,7.49356174f,7.49898052f,7.50436974f,7.50973034f,7.51506233f,7.52036619f,7.52564144f,7.53088951f,7.5361104f,7.54130363f,
7.54647064f,7.55161047f,7.55672455f,7.56181192f,7.56687403f,7.57191086f,7.57692194f,7.58190823f,7.58686972f,7.59180689f,7.59671974f,7.60160875f,
7.60647392f,7.61131525f,7.61613321f,7.62092829f,7.62570047f,7.63045025f,7.63517714f,7.63988209f,7.64456463f,7.64922571f,7.65386486f,7.65848303f,
7.66307926f,7.66765499f,7.67220974f,7.67674398f,7.68125772f,7.68575096f,7.69022465f,7.69467783f,7.69911146f,7.70352554f,7.70792007f,7.71229553f,
7.71665192f,7.7209897f,7.72530842f,7.72960854f,7.73389006f,7.73815346f,7.74239922f,7.74662638f,7.75083637f,7.75502825f,7.75920296f,7.76336002f,
7.76749992f,7.77162266f,7.7757287f,7.77981806f,7.78389025f,7.78794622f,7.79198599f,7.79600954f,7.8000164f,7.80400801f,7.8079834f,7.81194258f,
7.81588697f,7.81981516f,7.82372856f,7.82762623f,7.83150911f,7.83537674f,7.83922958f,7.84306765f,7.84689093f,7.8506999f,7.85449457f,7.85827446f,
7.86204004f,7.8657918f,7.86952925f,7.87325335f,7.87696314f,7.8806591f,7.88434172f,7.88801098f,7.89166641f,7.89530897f,7.89893818f,7.90255404f,
7.90615702f,7.90974712f,7.91332436f,7.91688871f,7.92044067f,7.92397976f,7.92750645f,7.93102074f,7.93452263f,7.9380126f,7.94149017f,7.94495583f,
7.94840956f,7.95185137f,7.95528126f,7.95869923f,7.96210623f,7.96550131f,7.96888447f,7.97225666f,7.97561741f,7.97896719f,7.98230553f,7.9856329f,
7.98894882f,7.99225426f,7.99554873f,7.99883223f,8.00210476f,8.00536728f,8.00861835f,8.01185989f,8.01508999f,8.01831055f,8.02151966f,8.02471924f,
8.02790833f,8.03108788f,8.03425694f,8.0374155f,8.04056549f,8.04370403f,8.04683399f,8.04995346f,8.05306339f,8.05616379f,8.05925465f,8.06233597f,
8.06540775f,8.06847f,8.07152271f,8.07456589f,8.07760048f,8.08062649f,8.08364201f,8.08664894f,8.08964729f,8.09263611f,8.09561634f,8.09858799f,
8.1015501f,8.10450459f,8.10744953f,8.11038589f,8.11331367f,8.11623287f,8.11914349f,8.12204647f,8.12493992f,8.12782574f,8.13070297f,8.13357162f,
8.13643265f,8.13928509f,8.1421299f,8.14496613f,8.14779472f,8.15061569f,8.15342808f,8.15623283f,8.15902901f,8.1618185f,8.16459942f,8.16737366f,
8.17013931f,8.17289734f,8.17564774f,8.17839146f,8.18112659f,8.18385506f,8.18657589f,8.18928909f,8.19199467f,8.19469357f,8.19738483f,8.20006943f,
8.20274639f,8.20541668f,8.20807934f,8.21073437f,8.21338367f,8.21602535f,8.2186594f,8.22128773f,8.22390842f,8.22652245f,8.22912979f,8.23173046f,
8.2343235f,8.23691082f,8.23949146f,8.24206448f,8.24463177f,8.24719238f,8.24974632f,8.25229359f,8.25483513f,8.25736904f,8.25989723f,8.2624197f,
8.26493454f,8.26744366f,8.26994705f,8.27244282f,8.27493382f,8.27741814f,8.27989578f,8.28236771f,8.28483295f,8.28729343f,8.28974724f,8.29219437f,
8.29463673f,8.29707241f,8.29950142f,8.30192566f,8.30434418f,8.30675602f,8.30916309f,8.31156349f,8.31395817f,8.31634712f,8.31873131f,8.32110882f,
8.32348061f,8.32584763f,8.32820892f,8.3305645f,8.33291435f,8.33525848f,8.33759689f,8.33993053f,8.34225845f,8.3445816f,8.34689903f,8.34921074f,
8.35151672f,8.35381794f,8.35611439f,8.35840511f,8.36069012f,8.36297035f,8.36524582f,8.36751556f,8.36978054f,8.37203979f,8.37429428f,8.376544f,
8.37878799f,8.38102818f,8.38326263f,8.38549137f,8.38771629f,8.38993549f,8.39214993f,8.39435959f,8.39656448f,8.39876461f,8.40095997f,8.40315056f,
8.40533543f,8.40751648f,8.40969276f,8.41186428f,8.41403008f,8.41619205f,8.41834927f,8.42050266f,8.42265034f,8.4247942f,8.42693233f,8.42906666f,
8.43119621f,8.43332195f,8.43544197f,8.43755817f,8.43967056f,8.44177723f,8.44388008f,8.44597912f,8.44807243f,8.45016289f,8.45224762f,8.45432854f,
8.45640564f,8.45847797f,8.46054554f,8.46260929f,8.46466923f,8.4667244f,8.46877575f,8.47082233f,8.4728651f,8.47490311f,8.47693825f,8.47896767f,
8.48099422f,8.48301601f,8.48503399f,8.48704815f,8.48905849f,8.49106407f,8.49306583f,8.49506378f,8.49705696f,8.49904728f,8.50103283f,8.50301456f,
8.50499344f,8.50696754f,8.50893784f,8.51090431f,8.51286602f,8.51482487f,8.5167799f,8.51873112f,8.52067852f,8.52262115f,8.52456093f,8.52649689f,
8.52842903f,8.53035831f,8.53228283f,8.53420353f,8.53612137f,8.53803444f,8.53994465f,8.54185104f,8.54375362f,8.54565334f,8.54754829f,8.54944038f,
8.55132866f,8.55321407f,8.55509472f,8.5569725f,8.55884743f,8.56071758f,8.56258488f,8.56444931f,8.56630898f,8.56816578f,8.57001972f,8.57186985f,
8.57371616f,8.57555866f,8.57739925f,8.57923508f,8.58106804f,8.58289814f,8.58472443f,8.5865469f,8.58836651f,8.59018326f,8.59199619f,8.59380627f,
8.59561253f,8.59741592f,8.59921551f,8.60101318f,8.60280609f,8.60459709f,8.60638428f,8.60816765f,8.60994816f,8.61172581f,8.6135006f,8.61527157f,
8.61704063f,8.61880493f,8.62056732f,8.6223259f,8.62408161f,8.62583447f,8.62758446f,8.62933064f,8.63107395f,8.63281441f,8.634552f,8.63628674f,
8.63801861f,8.63974667f,8.64147186f,8.6431942f,8.64491463f,8.64663124f,8.64834404f,8.65005493f,8.65176296f,8.65346813f,8.65516949f,8.65686893f,
8.65856552f,8.66025829f,8.66194916f,8.66363621f,8.66532135f,8.66700363f,8.6686821f,8.67035866f,8.67203236f,8.67370319f,8.67537117f,8.67703629f,
8.67869854f,8.68035793f,8.68201447f,8.68366909f,8.68532085f,8.6869688f,8.68861485f,8.69025803f,8.6918993f,8.69353676f,8.69517231f,8.69680405f,
8.69843388f,8.7000618f,8.70168591f,8.70330811f,8.70492744f,8.70654392f,8.70815849f,8.70976925f,8.7113781f,8.71298504f,8.71458817f,8.71618938f,
8.71778774f,8.71938419f,8.72097778f,8.72256851f,8.72415733f,8.72574329f,8.72732639f,8.72890759f,8.73048592f,8.73206139f,8.73363495f,8.73520565f,
8.73677444f,8.73834038f,8.7399044f,8.74146557f,8.74302387f,8.74458027f,8.74613476f,8.74768543f,8.74923515f,8.75078201f,8.75232601f,8.7538681f,
8.75540733f,8.75694466f,8.75847912f,8.76001167f,8.76154137f,8.76306915f,8.76459503f,8.76611805f,8.76763916f,8.76915741f,8.77067375f,8.77218723f,
8.77369881f,8.77520847f,8.77671528f,8.77822018f,8.77972317f,8.7812233f,8.78272152f,8.78421688f,8.78571033f,8.78720188f,8.78869057f,8.79017735f,
8.79166222f,8.79314518f,8.79462528f,8.79610348f,8.79757881f,8.79905319f,8.80052471f,8.80199337f,8.80346107f,8.80492592f,8.80638885f,8.80784988f,
8.80930901f,8.81076527f,8.81221962f,8.81367207f,8.8151226f,8.81657028f,8.81801605f,8.81945992f,8.82090187f,8.82234192f,8.82378006f,8.82521534f,
8.82664871f,8.82808018f,8.82950974f,8.83093739f,8.83236313f,8.83378601f,8.83520794f,8.83662701f,8.83804417f,8.83945942f,8.84087276f,8.8422842f,
8.84369373f,8.84510136f,8.84650612f,8.84790993f,8.84931087f,8.85071087f,8.852108f,8.85350418f,8.8548975f,8.85628891f,8.85767841f,8.85906696f,
8.86045265f,8.86183643f,8.86321831f,8.86459923f,8.86597729f,8.86735344f,8.86872768f,8.87010002f,8.87147141f,8.87283993f,8.87420654f,8.8755722f,
8.87693501f,8.87829685f,8.87965584f,8.88101387f,8.88237f,8.88372421f,8.88507557f,8.88642597f,8.88777447f,8.88912106f,8.89046669f,8.89180946f,
8.89315128f,8.89449024f,8.89582825f,8.89716434f,8.89849854f,8.89983082f,8.90116119f,8.90248966f,8.90381718f,8.90514183f,8.90646553f,8.90778732f,
8.90910721f,8.91042614f,8.91174221f,8.91305733f,8.91437054f,8.91568184f,8.91699123f,8.91829967f,8.91960526f,8.92090988f,8.9222126f,8.92351437f,
8.92481327f,8.92611122f,8.92740726f,8.92870235f,8.92999458f,8.93128586f,8.93257523f,8.93386269f,8.93514919f,8.93643379f,8.93771648f,8.93899727f,
8.9402771f,8.94155502f,8.94283104f,8.9441061f,8.9453783f,8.94665051f,8.94791985f,8.94918823f,8.95045471f,8.95171928f,8.9529829f,8.95424461f,
8.95550442f,8.95676327f,8.95802021f,8.95927525f,8.96052933f,8.9617815f,8.96303272f,8.96428204f,8.96552944f,8.96677494f,8.96801949f,8.96926308f,
8.97050381f,8.97174358f,8.97298241f,8.97421932f,8.97545433f,8.97668839f,8.97792053f,8.97915077f,8.98038006f,8.98160744f,8.98283386f,8.98405838f,
8.98528194f,8.9865036f,8.98772335f,8.98894215f,8.99015999f,8.99137497f,8.99258995f,8.99380207f,8.99501324f,8.99622345f,8.99743176f,8.99863911f,
8.99984455f,9.00104809f,9.00225067f,9.0034523f,9.00465202f,9.00584984f,9.0070467f,9.00824261f,9.00943565f,9.0106287f,9.01181984f,9.01300907f,
9.01419735f,9.01538467f,9.01657009f,9.01775455f,9.01893711f,9.02011776f,9.02129841f,9.0224762f,9.02365398f,9.02482891f,9.02600384f,9.02717686f,
9.02834797f,9.02951813f,9.03068733f,9.03185463f,9.03302097f,9.03418541f,9.03534889f,9.03651047f,9.03767204f,9.03883076f,9.03998947f,9.04114532f,
9.04230118f,9.04345512f,9.04460812f,9.0457592f,9.04690933f,9.04805756f,9.04920483f,9.05035114f,9.05149555f,9.05263901f,9.05378151f,9.0549221f,
9.05606174f,9.05720043f,9.05833721f,9.05947304f,9.06060696f,9.06173992f,9.06287193f,9.06400299f,9.06513214f,9.06625938f,9.06738663f,9.06851196f,
9.06963634f,9.07075882f,9.07188034f,9.07300091f,9.07412052f,9.07523823f,9.07635498f,9.07746983f,9.07858372f,9.07969666f,9.08080864f,9.08191872f,
9.08302879f,9.08413601f,9.08524323f,9.08634853f,9.08745289f,9.08855629f,9.08965778f,9.09075832f,9.09185791f,9.09295654f,9.09405327f,9.09514904f,
9.09624386f,9.09733677f,9.09842968f,9.09952068f,9.10061073f,9.10169888f,9.10278606f,9.1038723f,9.10495758f,9.10604191f,9.10712433f,9.1082058f,
9.10928631f,9.11036587f,9.11144447f,9.11252117f,9.11359692f,9.11467171f,9.11574459f,9.11681747f,9.11788845f,9.11895847f,9.12002754f,9.1210947f,
9.12216187f,9.12322712f,9.12429142f,9.12535477f,9.12641716f,9.12747765f,9.12853718f,9.12959671f,9.13065434f,9.13171005f,9.13276577f,9.13381958f,
9.13487339f,9.13592529f,9.13697624f,9.13802624f,9.13907433f,9.14012241f,9.14116859f,9.14221382f,9.14325809f,9.14430141f,9.14534378f,9.14638519f,
9.1474247f,9.1484642f,9.1495018f,9.15053844f,9.15157413f,9.15260887f,9.15364265f,9.15467453f,9.15570641f,9.15673637f,9.15776539f,9.1587944f,
9.15982151f,9.16084766f,9.16187191f,9.16289616f,9.16391945f,9.16494083f,9.16596222f,9.1669817f,9.16800117f,9.16901875f,9.17003536f,9.17105103f,
9.17206573f,9.17307949f,9.17409134f,9.17510319f,9.17611408f,9.17712307f,9.17813206f,9.17913914f,9.18014622f,9.18115139f,9.18215561f,9.18315983f,
9.18416214f,9.1851635f,9.1861639f,9.18716335f,9.18816185f,9.18915939f,9.19015598f,9.19115067f,9.19214535f,9.19313908f,9.19413185f,9.19512272f,
9.19611359f,9.1971035f,9.19809151f,9.19907951f,9.20006561f,9.20105171f,9.2020359f,9.2030201f,9.20400238f,9.20498466f,9.20596504f,9.20694542f,
9.20792389f,9.20890236f,9.20987892f,9.21085548f,9.21183014f,9.21280479f,9.21377754f,9.21475029f,9.21572113f,9.21669197f,9.2176609f,9.21862984f,
9.21959686f,9.22056389f,9.22152901f,9.22249413f,9.22345734f,9.22442055f,9.2253828f,9.22634411f,9.2273035f,9.2282629f,9.22922134f,9.23017883f,
9.23113537f,9.23209095f,9.23304558f,9.23399925f,9.23495197f,9.23590374f,9.23685455f,9.23780441f,9.23875332f,9.23970222f,9.24064922f,9.24159622f,
9.24254131f,9.2434864f,9.24442959f,9.24537277f,9.246315f,9.24725628f,9.2481966f,9.24913597f,9.25007439f,9.25101185f,9.25194836f,9.25288391f,
9.25381947f,9.25475311f,9.25568676f,9.2566185f,9.25755024f,9.25848103f,9.25941086f,9.26033974f,9.26126766f,9.26219463f,9.2631216f,9.26404667f,
9.26497173f,9.26589489f,9.26681805f,9.26774025f,9.2686615f,9.26958179f,9.27050114f,9.27141953f,9.27233791f,9.27325439f,9.27417088f,9.27508545f,
9.27600002f,9.27691364f,9.27782631f,9.27873898f,9.27964973f,9.28056049f,9.28146935f,9.2823782f,9.28328609f,9.28419304f,9.28509903f,9.28600407f,
9.2869091f,9.28781223f,9.28871536f,9.28961754f,9.29051876f,9.29141903f,9.2923193f,9.29321766f,9.29411602f,9.29501343f,9.29590988f,9.29680538f,
9.29769993f,9.29859447f,9.29948711f,9.30037975f,9.30127144f,9.30216217f,9.30305195f,9.30394173f,9.3048296f,9.30571747f,9.30660439f,9.30749035f,
9.30837536f,9.30926037f,9.31014442f,9.31102657f,9.31190968f,9.31279087f,9.31367111f,9.31455135f,9.31543064f,9.31630802f,9.31718636f,9.31806278f,
9.31893921f,9.31981373f,9.32068825f,9.32156181f,9.32243538f,9.32330704f,9.3241787f,9.3250494f,9.32591915f,9.3267889f,9.32765675f,9.32852459f,
9.32939148f,9.33025742f,9.33112335f,9.33198738f,9.33285141f,9.33371449f,9.33457661f,9.33543873f,9.3362999f,9.33716011f,9.33801937f,9.33887768f,
9.33973598f,9.34059334f,9.34144974f,9.34230518f,9.34316063f,9.34401512f,9.34486866f,9.34572124f,9.34657288f,9.34742451f,9.34827518f,9.34912491f,
9.34997463f,9.3508234f,9.35167122f,9.35251808f,9.35336399f,9.3542099f,9.35505486f,9.35589886f,9.35674286f,9.35758495f,9.35842705f,9.35926819f,
9.36010933f,9.36094952f,9.36178875f,9.36262703f,9.36346531f,9.36430168f,9.36513805f,9.36597443f,9.36680889f,9.36764336f,9.36847687f,9.36931038f,
9.37014198f,9.37097359f,9.37180519f,9.37263489f,9.37346458f,9.37429333f,9.37512112f,9.37594891f,9.37677574f,9.37760162f,9.37842751f,9.37925148f,
9.38007545f,9.38089943f,9.3817215f,9.38254356f,9.38336563f,9.38418579f,9.38500595f,9.38582516f,9.38664341f,9.38746166f,9.38827896f,9.38909531f,
9.38991165f,9.39072704f,9.39154148f,9.39235592f,9.39316845f,9.39398098f,9.39479351f,9.39560509f,9.39641571f,9.39722538f,9.39803505f,9.39884377f,
9.39965153f,9.40045929f,9.4012661f,9.40207195f,9.40287685f,9.40368176f,9.4044857f,9.40528965f,9.40609264f,9.40689468f,9.40769672f,9.40849686f,
9.40929794f,9.41009712f,9.4108963f,9.41169453f,9.41249275f,9.41328907f,9.41408539f,9.41488171f,9.41567707f,9.41647148f,9.41726494f,9.4180584f,
9.4188509f,9.4196434f,9.42043495f,9.42122555f,9.42201614f,9.42280579f,9.42359447f,9.42438221f,9.42516994f,9.42595768f,9.42674351f,9.42752934f,
9.42831516f,9.42909908f,9.429883f,9.43066692f,9.43144989f,9.4322319f,9.43301296f,9.43379402f,9.43457413f,9.43535423f,9.43613338f,9.43691158f,
9.43768978f,9.43846703f,9.43924332f,9.44001961f,9.44079494f,9.44157028f,9.44234371f,9.4431181f,9.44389057f,9.44466305f,9.44543552f,9.44620609f,
9.44697762f,9.44774723f,9.44851685f,9.44928551f,9.45005417f,9.45082188f,9.45158863f,9.45235538f,9.45312119f,9.45388699f,9.45465183f,9.45541573f,
9.45617962f,9.45694256f,9.45770454f,9.45846653f,9.45922756f,9.45998859f,9.46074867f,9.46150875f,9.46226692f,9.46302605f,9.46378326f,9.46454048f,
9.4652977f,9.46605396f,9.46680927f,9.46756458f,9.46831894f,9.46907234f,9.46982574f,9.47057819f,9.47133064f,9.47208214f,9.47283268f,9.47358322f,
9.47433376f,9.4750824f,9.47583199f,9.47657967f,9.47732735f,9.47807407f,9.4788208f,9.47956657f,9.48031235f,9.48105717f,9.48180103f,9.4825449f,
9.48328876f,9.48403072f,9.48477268f,9.48551464f,9.48625565f,9.4869957f,9.48773575f,9.4884758f,9.48921394f,9.48995209f,9.49069023f,9.49142742f,
9.49216366f,9.49289989f,9.49363518f,9.49437046f,9.49510479f,9.49583912f,9.49657249f,9.49730492f,9.49803734f,9.49876881f,9.49950027f,9.50023079f,
9.5009613f,9.50169086f,9.50242043f,9.50314903f,9.50387669f,9.50460434f,9.50533104f,9.50605774f,9.50678349f,9.50750923f,9.50823402f,9.50895786f,
9.5096817f,9.51040554f,9.51112843f,9.51185036f,9.51257229f,9.51329327f,9.51401424f,9.51473427f,9.51545334f,9.51617336f,9.51689148f,9.5176096f,
9.51832771f,9.51904392f,9.51976109f,9.52047729f,9.52119255f,9.52190781f,9.52262211f,9.52333641f,9.52404976f,9.52476215f,9.52547455f,9.52618694f,
9.52689838f,9.52760983f,9.52832031f,9.52902985f,9.52973938f,9.53044796f,9.53115654f,9.53186417f,9.53257179f,9.53327847f,9.53398514f,9.53469086f,
9.53539658f,9.53610134f,9.53680611f,9.53750992f,9.53821373f,9.53891659f,9.53961945f,9.54032135f,9.5410223f,9.54172325f,9.5424242f,9.5431242f,
9.54382324f,9.54452229f,9.54522133f,9.54591942f,9.54661655f,9.54731369f,9.54801083f,9.54870605f,9.54940224f,9.55009747f,9.55079174f,9.55148602f,
9.55217934f,9.55287266f,9.55356598f,9.55425835f,9.55494976f,9.55564117f,9.55633163f,9.55702209f,9.55771255f,9.55840111f,9.55909061f,9.55977917f,
9.56046677f,9.56115437f,9.56184101f,9.56252766f,9.5632143f,9.56389999f,9.56458473f,9.56526947f,9.56595325f,9.56663704f,9.56732082f,9.56800365f,
9.56868553f,9.56936741f,9.57004929f,9.57073021f,9.57141018f,9.57209015f,9.57277012f,9.57344913f,9.57412815f,9.57480621f,9.57548332f,9.57616138f,
9.57683754f,9.57751369f,9.57818985f,9.57886505f,9.57954025f,9.5802145f,9.58088875f,9.581563f,9.58223534f,9.58290863f,9.58358097f,9.58425236f,
9.58492374f,9.58559513f,9.58626556f,9.58693504f,9.58760452f,9.588274f,9.58894253f,9.58961105f,9.59027863f,9.59094524f,9.59161282f,9.59227943f,
9.5929451f,9.59361076f,9.59427547f,9.59494019f,9.5956049f,9.59626865f,9.59693146f,9.59759426f,9.59825706f,9.59891891f,9.59958076f,9.60024166f,
9.60090256f,9.6015625f,9.60222244f,9.60288143f,9.60354042f,9.60419941f,9.60485744f,9.60551548f,9.60617256f,9.60682869f,9.60748577f,9.60814095f,
9.60879707f,9.60945225f,9.61010647f,9.61076069f,9.61141491f,9.61206818f,9.61272049f,9.61337376f,9.61402512f,9.61467743f,9.61532879f,9.61597919f,
9.6166296f,9.61727905f,9.61792946f,9.61857796f,9.61922646f,9.61987495f,9.6205225f,9.62117004f,9.62181759f,9.62246418f,9.62310982f,9.62375641f,
9.62440109f,9.62504673f,9.62569046f,9.62633514f,9.62697887f,9.62762165f,9.62826443f,9.6289072f,9.62954903f,9.63019085f,9.63083172f,9.63147259f,
9.63211346f,9.63275337f,9.63339233f,9.63403225f,9.63467026f,9.63530922f,9.63594723f,9.63658428f,9.63722134f,9.63785839f,9.63849449f,9.63913059f,
9.63976574f,9.64040089f,9.64103603f,9.64167023f,9.64230442f,9.64293766f,9.6435709f,9.64420319f,9.64483547f,9.64546776f,9.64609909f,9.64673042f,
9.6473608f,9.64799118f,9.64862061f,9.64925003f,9.64987946f,9.65050793f,9.6511364f,9.65176487f,9.65239239f,9.65301895f,9.65364552f,9.65427208f,
9.65489864f,9.65552425f,9.65614891f,9.65677357f,9.65739822f,9.65802193f,9.65864563f,9.65926933f,9.65989208f,9.66051388f,9.66113663f,9.66175842f,
9.66237926f,9.66300011f,9.66362095f,9.66424084f,9.66486073f,9.66547966f,9.66609859f,9.66671753f,9.66733551f,9.66795349f,9.66857147f,9.6691885f,
9.66980457f,9.6704216f,9.67103672f,9.67165279f,9.67226791f,9.67288303f,9.6734972f,9.67411137f,9.67472458f,9.67533779f,9.675951f,9.67656326f,
9.67717552f,9.67778778f,9.67839909f,9.67901039f,9.67962074f,9.68023109f,9.68084049f,9.68145084f,9.68205929f,9.68266869f,9.68327713f,9.68388462f,
9.68449306f,9.6850996f,9.68570709f,9.68631363f,9.68692017f,9.68752575f,9.68813133f,9.68873596f,9.68934059f,9.68994522f,9.69054985f,9.69115353f,
9.69175625f,9.69235897f,9.69296169f,9.69356441f,9.69416618f,9.694767f,9.69536877f,9.69596958f,9.69656944f,9.6971693f,9.69776917f,9.69836903f,
9.69896793f,9.69956589f,9.70016479f,9.70076275f,9.70135975f,9.70195675f,9.70255375f,9.70315075f,9.7037468f,9.70434189f,9.70493793f,9.70553303f,
9.70612717f,9.70672226f,9.70731544f,9.70790958f,9.70850277f,9.70909595f,9.70968819f,9.71028042f,9.71087265f,9.71146393f,9.71205521f,9.71264553f,
9.71323586f,9.71382618f,9.7144165f,9.71500587f,9.71559429f,9.71618366f,9.71677208f,9.71735954f,9.71794796f,9.71853542f,9.71912193f,9.71970844f,
9.72029495f,9.72088051f,9.72146702f,9.72205162f,9.72263718f,9.72322178f,9.72380543f,9.72439003f,9.72497272f,9.72555637f,9.72613907f,9.72672176f,
9.72730446f,9.7278862f,9.72846794f,9.72904873f,9.72962952f,9.7302103f,9.73079014f,9.73136997f,9.73194981f,9.73252869f,9.73310757f,9.73368645f,
9.73426437f,9.7348423f,9.73542023f,9.7359972f,9.73657417f,9.73715019f,9.73772621f,9.73830223f,9.73887825f,9.73945332f,9.74002838f,9.74060249f,
9.74117661f,9.74175072f,9.74232388f,9.74289703f,9.74347019f,9.7440424f,9.74461555f,9.74518681f,9.74575901f,9.74633026f,9.74690056f,9.74747086f,
9.74804115f,9.74861145f,9.74918079f,9.74975014f,9.75031948f,9.75088787f,9.75145626f,9.75202465f,9.75259209f,9.75315952f,9.75372696f,9.75429344f,
9.75485992f,9.75542545f,9.75599098f,9.75655651f,9.75712204f,9.75768661f,9.75825119f,9.75881577f,9.75937939f,9.75994301f,9.76050568f,9.7610693f,
9.76163101f,9.76219368f,9.76275539f,9.76331711f,9.76387882f,9.76443958f,9.76500034f,9.7655611f,9.76612091f,9.76668072f,9.76723957f,9.76779938f,
9.76835823f,9.76891613f,9.76947403f,9.77003193f,9.77058983f,9.77114677f,9.77170372f,9.77226067f,9.77281666f,9.77337265f,9.77392864f,9.77448368f,
9.77503872f,9.77559376f,9.7761488f,9.77670288f,9.77725601f,9.7778101f,9.77836323f,9.77891636f,9.77946854f,9.78002071f,9.78057289f,9.78112507f,
9.78167629f,9.78222752f,9.78277779f,9.78332806f,9.78387833f,9.7844286f,9.78497791f,9.78552723f,9.78607655f,9.78662491f,9.78717327f,9.78772163f,
9.78826904f,9.78881645f,9.78936386f,9.78991127f,9.79045773f,9.79100418f,9.79154968f,9.79209518f,9.79264069f,9.79318619f,9.79373074f,9.79427528f,
9.79481983f,9.79536343f,9.79590702f,9.79645061f,9.79699326f,9.7975359f,9.79807854f,9.79862022f,9.79916286f,9.7997036f,9.80024529f,9.80078602f,
9.80132675f,9.80186749f,9.80240726f,9.80294704f,9.80348682f,9.80402565f,9.80456448f,9.8051033f,9.80564213f,9.80618f,9.80671787f,9.80725479f,
9.80779266f,9.80832958f,9.80886555f,9.80940247f,9.80993843f,9.81047344f,9.81100941f,9.81154442f,9.81207943f,9.81261444f,9.8131485f,9.81368256f,
9.81421566f,9.81474972f,9.81528282f,9.81581593f,9.81634808f,9.81688023f,9.81741238f,9.81794453f,9.81847572f,9.81900692f,9.81953812f,9.82006836f,
9.8205986f,9.82112885f,9.82165909f,9.82218838f,9.82271767f,9.823246f,9.82377529f,9.82430363f,9.82483196f,9.82535934f,9.82588673f,9.82641411f,
9.82694149f,9.82746792f,9.82799435f,9.82852077f,9.82904625f,9.82957172f,9.8300972f,9.83062267f,9.83114719f,9.83167171f,9.83219624f,9.8327198f,
9.83324337f,9.83376694f,9.8342905f,9.83481312f,9.83533573f,9.83585835f,9.83638f,9.83690166f,9.83742332f,9.83794498f,9.83846569f,9.8389864f,
9.83950615f,9.84002686f,9.84054661f,9.84106636f,9.84158516f,9.84210491f,9.84262371f,9.84314156f,9.84366035f,9.8441782f,9.84469604f,9.84521294f,
9.84573078f,9.84624767f,9.84676361f,9.8472805f,9.84779644f,9.84831238f,9.84882832f,9.8493433f,9.84985828f,9.85037327f,9.8508873f,9.85140228f,
9.85191631f,9.85242939f,9.85294342f,9.8534565f,9.85396957f,9.8544817f,9.85499477f,9.8555069f,9.85601807f,9.85653019f,9.85704136f,9.85755253f,
9.8580637f,9.85857391f,9.85908413f,9.85959435f,9.86010456f,9.86061382f,9.86112309f,9.86163235f,9.86214066f,9.86264896f,9.86315727f,9.86366558f,
9.86417294f,9.86468029f,9.86518764f,9.865695f,9.8662014f,9.8667078f,9.8672142f,9.86771965f,9.86822605f,9.8687315f,9.86923599f,9.86974144f,
9.87024593f,9.87075043f,9.87125492f,9.87175846f,9.872262f,9.87276554f,9.87326813f,9.87377167f,9.87427425f,9.87477684f,9.87527847f,9.87578011f,
9.87628174f,9.87678337f,9.87728405f,9.87778568f,9.87828636f,9.87878609f,9.87928677f,9.87978649f,9.88028622f,9.88078499f,9.88128471f,9.88178349f,
9.88228226f,9.88278008f,9.88327885f,9.88377666f,9.88427353f,9.88477135f,9.88526821f,9.88576508f,9.88626194f,9.88675785f,9.88725471f,9.88775063f,
9.88824558f,9.88874149f,9.88923645f,9.88973141f,9.89022636f,9.89072037f,9.89121437f,9.89170837f,9.89220238f,9.89269543f,9.89318943f,9.89368153f,
9.89417458f,9.89466763f,9.89515972f,9.89565182f,9.89614296f,9.89663506f,9.8971262f,9.89761734f,9.89810753f,9.89859867f,9.89908886f,9.89957905f,
9.90006828f,9.90055847f,9.90104771f,9.90153694f,9.90202522f,9.90251446f,9.90300274f,9.90349102f};
static const float t_pow9_lo[2048] = {
-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,
-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,
-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,
-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,
-3.00000011e-06f,-3.00000011e-06f,-3.00000011e-06f,-2.99999988e-06f,-2.99999988e-06f,-2.99999988e-06f,-2.99999988e-06f,-2.99999988e-06f,-2.99999988e-06f,-2.99999988e-06f,-2.99999988e-06f,-2.99999988e-06f,
-2.99999988e-06f,-2.99999988e-06f,-2.99999988e-06f,-2.99999988e-06f,-2.99999988e-06f,-2.99999988e-06f,-2.99999988e-06f,-2.99999988e-06f,-2.99999988e-06f,-2.99999988e-06f,-2.99999988e-06f,-2.99999988e-06f,
-2.99999988e-06f,-2.99999988e-06f,-2.99999988e-06f,-2.99999988e-06f,-2.99999965e-06f,-2.99999965e-06f,-2.99999965e-06f,-2.99999965e-06f,-2.99999965e-06f,-2.99999965e-06f,-2.99999942e-06f,-2.99999942e-06f,
-2.99999942e-06f,-2.9999992e-06f,-2.9999992e-06f,-2.9999992e-06f,-2.99999897e-06f,-2.99999897e-06f,-2.99999874e-06f,-2.99999874e-06f,-2.99999851e-06f,-2.99999851e-06f,-2.99999829e-06f,-2.99999806e-06f,
-2.99999806e-06f,-2.99999783e-06f,-2.99999761e-06f,-2.99999738e-06f,-2.99999715e-06f,-2.99999692e-06f,-2.99999647e-06f,-2.99999624e-06f,-2.99999601e-06f,-2.99999556e-06f,-2.9999951e-06f,-2.99999465e-06f,
-2.99999419e-06f,-2.99999374e-06f,-2.99999328e-06f,-2.99999283e-06f,-2.99999215e-06f,-2.99999147e-06f,-2.99999078e-06f,-2.9999901e-06f,-2.99998919e-06f,-2.99998851e-06f,-2.9999876e-06f,-2.99998669e-06f,
-2.99998555e-06f,-2.99998442e-06f,-2.99998328e-06f,-2.99998214e-06f,-2.99998078e-06f,-2.99997942e-06f,-2.99997782e-06f,-2.99997623e-06f,-2.99997464e-06f,-2.99997282e-06f,-2.99997077e-06f,-2.99996873e-06f,
-2.99996668e-06f,-2.99996441e-06f,-2.99996191e-06f,-2.99995941e-06f,-2.99995668e-06f,-2.99995372e-06f,-2.99995077e-06f,-2.99994736e-06f,-2.99994394e-06f,-2.99994031e-06f,-2.99993667e-06f,-2.99993258e-06f,
-2.99992826e-06f,-2.99992371e-06f,-2.99991893e-06f,-2.99991393e-06f,-2.9999087e-06f,-2.99990302e-06f,-2.99989733e-06f,-2.99989097e-06f,-2.9998846e-06f,-2.99987778e-06f,-2.9998705e-06f,-2.99986277e-06f,
-2.99985481e-06f,-2.9998464e-06f,-2.99983776e-06f,-2.99982844e-06f,-2.99981866e-06f,-2.99980843e-06f,-2.99979774e-06f,-2.9997866e-06f,-2.99977478e-06f,-2.99976227e-06f,-2.99974931e-06f,-2.99973567e-06f,
-2.99972157e-06f,-2.99970657e-06f,-2.99969088e-06f,-2.99967451e-06f,-2.99965745e-06f,-2.99963949e-06f,-2.99962062e-06f,-2.99960107e-06f,-2.9995806e-06f,-2.999559e-06f,-2.99953672e-06f,-2.9995133e-06f,
-2.99948874e-06f,-2.99946328e-06f,-2.99943667e-06f,-2.99940871e-06f,-2.99937983e-06f,-2.99934936e-06f,-2.99931776e-06f,-2.99928479e-06f,-2.99925046e-06f,-2.99921476e-06f,-2.99917747e-06f,-2.99913859e-06f,
-2.99909789e-06f,-2.99905582e-06f,-2.99901194e-06f,-2.99896624e-06f,-2.99891849e-06f,-2.99886892e-06f,-2.99881754e-06f,-2.99876388e-06f,-2.99870817e-06f,-2.99865019e-06f,-2.99858993e-06f,-2.99852718e-06f,
-2.99846215e-06f,-2.99839462e-06f,-2.99832436e-06f,-2.99825138e-06f,-2.99817566e-06f,-2.99809699e-06f,-2.99801536e-06f,-2.99793055e-06f,-2.99784256e-06f,-2.99775138e-06f,-2.99765679e-06f,-2.99755879e-06f,
-2.99745693e-06f,-2.99735143e-06f,-2.99724206e-06f,-2.99712883e-06f,-2.99701128e-06f,-2.99688963e-06f,-2.99676344e-06f,-2.99663293e-06f,-2.99649787e-06f,-2.99635781e-06f,-2.99621274e-06f,-2.99606268e-06f,
-2.99590738e-06f,-2.99574685e-06f,-2.99558064e-06f,-2.99540852e-06f,-2.99523072e-06f,-2.99504677e-06f,-2.99485646e-06f,-2.99465978e-06f,-2.99445651e-06f,-2.99424619e-06f,-2.99402905e-06f,-2.99380463e-06f,
-2.99357271e-06f,-2.99333328e-06f,-2.9930859e-06f,-2.99283033e-06f,-2.99256658e-06f,-2.99229418e-06f,-2.99201292e-06f,-2.99172257e-06f,-2.99142289e-06f,-2.99111389e-06f,-2.99079466e-06f,-2.99046565e-06f,
-2.99012618e-06f,-2.98977602e-06f,-2.98941472e-06f,-2.98904229e-06f,-2.98865848e-06f,-2.98826262e-06f,-2.98785449e-06f,-2.98743385e-06f,-2.98700047e-06f,-2.98655391e-06f,-2.9860937e-06f,-2.9856194e-06f,
-2.98513123e-06f,-2.98462805e-06f,-2.9841101e-06f,-2.98357668e-06f,-2.98302734e-06f,-2.98246187e-06f,-2.98187979e-06f,-2.98128066e-06f,-2.98066379e-06f,-2.98002919e-06f,-2.97937618e-06f,-2.97870429e-06f,
-2.97801307e-06f,-2.97730207e-06f,-2.97657084e-06f,-2.97581869e-06f,-2.97504516e-06f,-2.97424981e-06f,-2.97343217e-06f,-2.97259157e-06f,-2.97172755e-06f,-2.9708392e-06f,-2.96992653e-06f,-2.96898838e-06f,
-2.96802455e-06f,-2.96703411e-06f,-2.96601661e-06f,-2.9649716e-06f,-2.96389794e-06f,-2.96279518e-06f,-2.96166286e-06f,-2.96050007e-06f,-2.95930613e-06f,-2.95808013e-06f,-2.95682162e-06f,-2.95552968e-06f,
-2.95420364e-06f,-2.95284281e-06f,-2.95144605e-06f,-2.95001291e-06f,-2.94854226e-06f,-2.94703341e-06f,-2.94548568e-06f,-2.9438977e-06f,-2.94226902e-06f,-2.94059851e-06f,-2.93888525e-06f,-2.93712833e-06f,
-2.93532685e-06f,-2.93347989e-06f,-2.9315861e-06f,-2.92964478e-06f,-2.9276548e-06f,-2.92561526e-06f,-2.92352456e-06f,-2.92138225e-06f,-2.91918673e-06f,-2.91693709e-06f,-2.91463198e-06f,-2.9122707e-06f,
-2.90985145e-06f,-2.9073733e-06f,-2.9048349e-06f,-2.90223511e-06f,-2.89957256e-06f,-2.8968459e-06f,-2.89405375e-06f,-2.89119498e-06f,-2.88826777e-06f,-2.88527121e-06f,-2.88220372e-06f,-2.87906346e-06f,
-2.87584953e-06f,-2.87255989e-06f,-2.86919339e-06f,-2.86574823e-06f,-2.8622228e-06f,-2.85861552e-06f,-2.85492501e-06f,-2.85114925e-06f,-2.84728662e-06f,-2.84333532e-06f,-2.83929376e-06f,-2.8351601e-06f,
-2.83093232e-06f,-2.82660903e-06f,-2.82218775e-06f,-2.81766688e-06f,-2.81304438e-06f,-2.80831841e-06f,-2.80348672e-06f,-2.79854748e-06f,-2.79349865e-06f,-2.78833772e-06f,-2.78306311e-06f,-2.77767208e-06f,
-2.77216259e-06f,-2.76653259e-06f,-2.76077958e-06f,-2.75490106e-06f,-2.74889521e-06f,-2.74275908e-06f,-2.73649039e-06f,-2.73008663e-06f,-2.72354532e-06f,-2.71686395e-06f,-2.71004001e-06f,-2.70307055e-06f,
-2.69595284e-06f,-2.68868462e-06f,-2.68126246e-06f,-2.67368409e-06f,-2.66594657e-06f,-2.6580467e-06f,-2.64998175e-06f,-2.64174855e-06f,-2.63334414e-06f,-2.62476556e-06f,-2.6160094e-06f,-2.6070727e-06f,
-2.59795206e-06f,-2.58864452e-06f,-2.57914621e-06f,-2.56945418e-06f,-2.55956456e-06f,-2.5494744e-06f,-2.53917983e-06f,-2.52867721e-06f,-2.51796291e-06f,-2.50703351e-06f,-2.49588493e-06f,-2.48451329e-06f,
-2.47291496e-06f,-2.46108607e-06f,-2.4490223e-06f,-2.4367198e-06f,-2.42417445e-06f,-2.41138218e-06f,-2.39833844e-06f,-2.38503935e-06f,-2.37148015e-06f,-2.35765674e-06f,-2.34356457e-06f,-2.32919888e-06f,
-2.31455533e-06f,-2.29962916e-06f,-2.28441559e-06f,-2.26890961e-06f,-2.25310691e-06f,-2.23700204e-06f,-2.22058998e-06f,-2.20386596e-06f,-2.18682453e-06f,-2.16946046e-06f,-2.15176874e-06f,-2.13374369e-06f,
-2.11538008e-06f,-2.09667201e-06f,-2.07761423e-06f,-2.05820106e-06f,-2.03842637e-06f,-2.0182847e-06f,-1.99776991e-06f,-1.97687586e-06f,-1.95559687e-06f,-1.93392657e-06f,-1.91185836e-06f,-1.88938645e-06f,
-1.86650414e-06f,-1.84320481e-06f,-1.81948201e-06f,-1.79532901e-06f,-1.770739e-06f,-1.74570516e-06f,-1.72022044e-06f,-1.6942779e-06f,-1.66787027e-06f,-1.64099026e-06f,-1.61363062e-06f,-1.58578393e-06f,
-1.55744249e-06f,-1.52859889e-06f,-1.49924517e-06f,-1.46937361e-06f,-1.43897626e-06f,-1.40804502e-06f,-1.37657173e-06f,-1.3445482e-06f,-1.31196589e-06f,-1.27881651e-06f,-1.24509143e-06f,-1.21078199e-06f,
-1.17587922e-06f,-1.14037425e-06f,-1.10425822e-06f,-1.06752179e-06f,-1.03015566e-06f,-9.92150603e-07f,-9.53497079e-07f,-9.14185364e-07f,-8.74205796e-07f,-8.33548484e-07f,-7.92203423e-07f,-7.50160495e-07f,
-7.0740947e-07f,-6.63939943e-07f,-6.19741456e-07f,-5.74803323e-07f,-5.291148e-07f,-4.82664973e-07f,-4.35442786e-07f,-3.87437126e-07f,-3.38636681e-07f,-2.89029941e-07f,-2.38605367e-07f,-1.87351233e-07f,
-1.35255632e-07f,-8.23065776e-08f,-2.84918826e-08f,2.62007536e-08f,8.17837957e-08f,1.38269854e-07f,1.95671674e-07f,2.54002202e-07f,3.13274512e-07f,3.73501791e-07f,4.34697455e-07f,4.96875032e-07f,
5.60048306e-07f,6.24231006e-07f,6.89437286e-07f,7.55681356e-07f,8.22977483e-07f,8.91340221e-07f,9.60784405e-07f,1.03132481e-06f,1.1029764e-06f,1.17575462e-06f,1.24967482e-06f,1.32475247e-06f,
1.40100337e-06f,1.47844366e-06f,1.55708926e-06f,1.63695654e-06f,1.71806209e-06f,1.80042252e-06f,1.88405488e-06f,1.96897599e-06f,2.05520337e-06f,2.14275451e-06f,2.23164693e-06f,2.32189859e-06f,
2.41352768e-06f,2.50655216e-06f,2.60099091e-06f,2.69686234e-06f,2.79418578e-06f,2.89297986e-06f,2.99326393e-06f,3.09505799e-06f,3.19838159e-06f,3.30325474e-06f,3.40969746e-06f,3.51773042e-06f,
3.62737433e-06f,3.73864987e-06f,3.85157864e-06f,3.96618134e-06f,4.08247979e-06f,4.20049628e-06f,4.32025217e-06f,4.44177022e-06f,4.56507314e-06f,4.69018323e-06f,4.81712414e-06f,4.94591859e-06f,
5.0765907e-06f,5.20916365e-06f,5.343662e-06f,5.48010985e-06f,5.61853221e-06f,5.75895319e-06f,5.90139825e-06f,6.04589331e-06f,6.19246339e-06f,6.34113439e-06f,6.49193271e-06f,6.64488516e-06f,
6.80001767e-06f,6.95735844e-06f,7.11693383e-06f,7.27877205e-06f,7.44290082e-06f,7.60934836e-06f,7.7781433e-06f,7.94931384e-06f,8.12288908e-06f,8.29889996e-06f,8.47737465e-06f,8.65834409e-06f,
8.84183737e-06f,9.02788634e-06f,9.2165219e-06f,9.407775e-06f,9.60167654e-06f,9.79826018e-06f,9.99755684e-06f,1.01995993e-05f,1.04044202e-05f,1.06120542e-05f,1.08225331e-05f,1.10358924e-05f,
1.12521648e-05f,1.14713866e-05f,1.16935917e-05f,1.19188153e-05f,1.21470939e-05f,1.23784639e-05f,1.26129598e-05f,1.28506208e-05f,1.30914814e-05f,1.33355816e-05f,1.35829578e-05f,1.38336491e-05f,
1.40876937e-05f,1.43451307e-05f,1.46059992e-05f,1.48703402e-05f,1.51381928e-05f,1.54095978e-05f,1.56845963e-05f,1.59632291e-05f,1.62455381e-05f,1.65315669e-05f,1.68213573e-05f,1.71149532e-05f,
1.74123961e-05f,1.77137317e-05f,1.80190036e-05f,1.83282555e-05f,1.86415346e-05f,1.89588845e-05f,1.92803527e-05f,1.96059864e-05f,1.9935831e-05f,2.02699339e-05f,2.06083441e-05f,2.0951109e-05f,
2.12982777e-05f,2.16498993e-05f,2.20060247e-05f,2.23667012e-05f,2.27319833e-05f,2.31019185e-05f,2.34765612e-05f,2.38559605e-05f,2.42401729e-05f,2.46292475e-05f,2.50232424e-05f,2.54222068e-05f,
2.58261989e-05f,2.62352714e-05f,2.66494826e-05f,2.7068887e-05f,2.7493541e-05f,2.7923501e-05f,2.8358827e-05f,2.87995772e-05f,2.9245808e-05f,2.96975813e-05f,3.01549553e-05f,3.06179936e-05f,
3.10867508e-05f,3.15612924e-05f,3.20416839e-05f,3.25279834e-05f,3.30202529e-05f,3.35185614e-05f,3.40229672e-05f,3.45335429e-05f,3.50503469e-05f,3.55734483e-05f,3.61029161e-05f,3.66388158e-05f,
3.7181213e-05f,3.77301803e-05f,3.82857834e-05f,3.88480948e-05f,3.94171839e-05f,3.99931232e-05f,4.0575982e-05f,4.1165833e-05f,4.17627525e-05f,4.23668098e-05f,4.29780812e-05f,4.35966431e-05f,
4.42225682e-05f,4.48559367e-05f,4.54968249e-05f,4.61453055e-05f,4.68014623e-05f,4.74653716e-05f,4.81371135e-05f,4.8816768e-05f,4.95044187e-05f,5.02001458e-05f,5.09040328e-05f,5.16161599e-05f,
5.23366143e-05f,5.30654797e-05f,5.38028435e-05f,5.45487892e-05f,5.53034042e-05f,5.60667759e-05f,5.68389951e-05f,5.76201492e-05f,5.84103291e-05f,5.92096221e-05f,6.00181265e-05f,6.08359296e-05f,
6.16631223e-05f,6.24998065e-05f,6.33460731e-05f,6.42020095e-05f,6.50677248e-05f,6.59433135e-05f,6.68288631e-05f,6.77244898e-05f,6.86302737e-05f,6.95463314e-05f,7.04727572e-05f,7.14096532e-05f,
7.23571211e-05f,7.33152701e-05f,7.42841949e-05f,7.5264019e-05f,7.62548298e-05f,7.72567437e-05f,7.82698698e-05f,7.92943174e-05f,8.03301955e-05f,8.1377606e-05f,8.24366798e-05f,8.35075116e-05f,
8.4590225e-05f,8.56849365e-05f,8.67917552e-05f,8.79107974e-05f,8.9042187e-05f,9.01860403e-05f,9.13424738e-05f,9.25116037e-05f,9.36935685e-05f,9.48884699e-05f,9.60964462e-05f,9.73176211e-05f,
9.8552111e-05f,9.98000469e-05f,0.00010106156f,0.000102336773f,0.000103625818f,0.000104928826f,0.000106245927f,0.000107577252f,0.000108922941f,0.00011028313f,0.000111657944f,0.000113047528f,
0.000114452021f,0.00011587156f,0.000117306285f,0.000118756332f,0.000120221855f,0.000121702993f,0.00012319989f,0.000124712693f,0.000126241532f,0.000127786596f,0.000129347987f,0.000130925895f,
0.00013252045f,0.000134131798f,0.000135760114f,0.000137405557f,0.000139068259f,0.000140748394f,0.000142446108f,0.000144161575f,0.000145894955f,0.000147646409f,0.000149416097f,0.000151204178f,
0.000153010842f,0.000154836234f,0.000156680544f,0.000158543917f,0.000160426542f,0.000162328593f,0.000164250232f,0.000166191647f,0.000168153012f,0.000170134503f,0.000172136293f,0.000174158573f,
0.000176201531f,0.000178265342f,0.000180350195f,0.000182456264f,0.000184583754f,0.000186732854f,0.000188903738f,0.000191096624f,0.000193311673f,0.000195549117f,0.000197809117f,0.000200091905f,
0.000202397656f,0.000204726588f,0.000207078891f,0.000209454767f,0.000211854436f,0.000214278101f,0.000216725966f,0.000219198249f,0.000221695154f,0.000224216885f,0.000226763688f,0.000229335754f,
0.0002319333f,0.000234556559f,0.00023720575f,0.000239881105f,0.000242582813f,0.000245311152f,0.000248066295f,0.000250848534f,0.000253658043f,0.000256495085f,0.000259359891f,0.000262252695f,
0.00026517373f,0.000268123229f,0.000271101453f,0.000274108665f,0.000277145067f,0.000280210894f,0.000283306465f,0.000286431983f,0.000289587682f,0.000292773853f,0.000295990758f,0.0002992386f,
0.000302517699f,0.000305828289f,0.000309170631f,0.000312545017f,0.000315951678f,0.000319390907f,0.000322862936f,0.000326368114f,0.000329906645f,0.00033347882f,0.00033708493f,0.000340725266f,
0.00034440012f,0.000348109723f,0.000351854396f,0.000355634431f,0.000359450118f,0.000363301748f,0.000367189612f,0.000371114002f,0.000375075237f,0.000379073579f,0.000383109378f,0.000387182896f,
0.000391294481f,0.000395444426f,0.00039963302f,0.000403860613f,0.000408127496f,0.00041243399f,0.000416780415f,0.000421167118f,0.000425594393f,0.000430062588f,0.000434571994f,0.000439123018f,
0.000443715922f,0.000448351057f,0.00045302877f,0.000457749411f,0.00046251333f,0.000467320846f,0.000472172309f,0.000477068068f,0.000482008501f,0.000486993958f,0.000492024759f,0.000497101282f,
0.000502223964f,0.000507393037f,0.000512608909f,0.000517872046f,0.00052318268f,0.000528541277f,0.000533948245f,0.000539403816f,0.000544908515f,0.00055046269f,0.000556066632f,0.000561720866f,
0.000567425741f,0.000573181605f,0.000578988926f,0.00058484805f,0.000590759388f,0.000596723403f,0.000602740387f,0.000608810864f,0.000614935183f,0.000621113752f,0.000627347094f,0.0006336355f,
0.000639979437f,0.000646379369f,0.000652835704f,0.000659348851f,0.000665919273f,0.00067254738f,0.000679233694f,0.000685978564f,0.000692782458f,0.00069964584f,0.000706569175f,0.00071355293f,
0.000720597513f,0.000727703446f,0.000734871137f,0.000742101052f,0.000749393716f,0.000756749592f,0.000764169148f,0.000771652849f,0.00077920116f,0.000786814606f,0.000794493651f,0.000802238821f,
0.00081005058f,0.000817929453f,0.000825875904f,0.000833890459f,0.00084197364f,0.000850125914f,0.000858347863f,0.000866639952f,0.000875002705f,0.000883436704f,0.000891942414f,0.000900520361f,
0.000909171125f,0.000917895231f,0.000926693203f,0.000935565622f,0.000944513013f,0.000953535899f,0.000962634862f,0.000971810427f,0.000981063233f,0.000990393804f,0.000999802724f,0.00100929046f,
0.00101885782f,0.00102850515f,0.00103823305f,0.00104804232f,0.00105793332f,0.00106790673f,0.00107796327f,0.00108810328f,0.00109832757f,0.00110863673f,0.00111903134f,0.00112951198f,
0.00114007923f,0.00115073391f,0.00116147648f,0.00117230753f,0.00118322787f,0.00119423808f,0.00120533875f,0.00121653045f,0.00122781401f,0.00123918999f,0.00125065912f,0.00126222195f,
0.00127387932f,0.00128563168f,0.00129747984f,0.00130942441f,0.00132146617f,0.00133360585f,0.00134584389f,0.00135818124f,0.00137061847f,0.0013831564f,0.00139579561f,0.0014085368f,
0.00142138079f,0.00143432827f,0.00144738005f,0.00146053662f,0.001473799f,0.00148716767f,0.00150064356f,0.00151422736f,0.00152791978f,0.00154172175f,0.00155563373f,0.00156965677f,
0.00158379145f,0.00159803859f,0.00161239912f,0.00162687362f,0.00164146291f,0.00165616791f,0.00167098932f,0.00168592809f,0.00170098478f,0.00171616033f,0.00173145556f,0.00174687128f,
0.0017624083f,0.00177806744f,0.00179384963f,0.00180975569f,0.00182578643f,0.00184194266f,0.00185822521f,0.00187463511f,0.00189117307f,0.00190784002f,0.00192463677f,0.00194156438f,
0.00195862353f,0.00197581528f,0.00199314044f,0.00201059971f,0.00202819449f,0.00204592524f,0.00206379313f,0.00208179886f,0.00209994358f,0.002118228f,0.00213665352f,0.00215522037f,
0.00217393017f,0.0021927834f,0.00221178145f,0.00223092479f,0.00225021481f,0.00226965221f,0.00228923839f,0.00230897381f,0.00232885964f,0.00234889681f,0.00236908672f,0.00238943007f,
0.00240992778f,0.00243058102f,0.00245139096f,0.00247235829f,0.00249348418f,0.00251477002f,0.00253621629f,0.00255782437f,0.00257959543f,0.00260153017f,0.00262362999f,0.00264589605f,
0.00266832905f,0.00269093015f,0.00271370076f,0.00273664179f,0.00275975442f,0.00278303958f,0.00280649867f,0.00283013261f,0.00285394257f,0.00287792971f,0.00290209521f,0.00292644021f,
0.00295096589f,0.00297567341f,0.00300056371f,0.00302563841f,0.00305089843f,0.00307634519f,0.00310197938f,0.00312780286f,0.00315381633f,0.00318002119f,0.00320641883f,0.00323301018f,
0.00325979665f,0.00328677939f,0.00331396004f,0.0033413393f,0.00336891878f,0.00339669944f,0.00342468312f,0.00345287053f,0.00348126329f,0.00350986258f,0.00353866979f,0.0035676863f,
0.0035969133f,0.00362635194f,0.00365600386f,0.00368587044f,0.00371595286f,0.00374625251f,0.00377677055f,0.00380750885f,0.00383846834f,0.00386965065f,0.00390105718f,0.00393268932f,
0.003964548f,0.00399663532f,0.00402895268f,0.00406150101f,0.00409428217f,0.00412729708f,0.00416054809f,0.00419403566f,0.00422776211f,0.00426172838f,0.00429593632f,0.00433038734f,
0.00436508236f,0.00440002372f,0.00443521282f,0.00447065057f,0.00450633885f,0.00454227952f,0.00457847351f,0.00461492315f,0.00465162937f,0.00468859402f,0.00472581852f,0.00476330472f,
0.00480105402f,0.00483906828f,0.0048773489f,0.00491589727f,0.00495471526f,0.00499380473f,0.00503316708f,0.00507280417f,0.00511271693f,0.00515290815f,0.00519337924f,0.00523413112f,
0.00527516613f,0.00531648612f,0.00535809249f,0.00539998664f,0.00544217136f,0.00548464712f,0.00552741671f,0.00557048153f,0.00561384298f,0.00565750385f,0.0057014646f,0.00574572803f,
0.00579029555f,0.00583516899f,0.00588035025f,0.00592584116f,0.00597164361f,0.00601775944f,0.00606419053f,0.00611093827f,0.00615800545f,0.00620539347f,0.00625310419f,0.00630113995f,
0.00634950167f,0.00639819261f,0.0064472137f,0.00649656728f,0.0065462552f,0.0065962798f,0.00664664246f,0.00669734599f,0.00674839132f,0.00679978123f,0.00685151806f,0.00690360274f,
0.00695603807f,0.00700882589f,0.00706196856f,0.00711546745f,0.00716932584f,0.00722354464f,0.0072781262f,0.0073330733f,0.00738838734f,0.00744407112f,0.00750012603f,0.00755655486f,
0.00761335902f,0.00767054176f,0.00772810448f,0.00778604951f,0.00784437917f,0.00790309627f,0.00796220172f,0.00802169833f,0.00808158889f,0.0081418762f,0.00820256025f,0.00826364569f,
0.00832513347f,0.00838702638f,0.00844932627f,0.00851203594f,0.00857515819f,0.00863869395f,0.00870264694f,0.00876701903f,0.008831813f,0.00889703073f,0.008962675f,0.00902874768f,
0.00909525156f,0.00916218944f,0.00922956318f,0.00929737557f,0.0093656294f,0.00943432655f,0.0095034698f,0.00957306195f,0.00964310579f,0.00971360225f,0.00978455599f,0.00985596795f,
0.0099278409f,0.0100001786f,0.0100729829f,0.0101462565f,0.0102200024f,0.0102942223f,0.010368919f,0.0104440963f,0.010519756f,0.0105959009f,0.0106725339f,0.0107496576f,
0.0108272741f,0.0109053878f,0.0109839998f,0.0110631138f,0.0111427326f,0.011222858f,0.0113034947f,0.0113846436f,0.0114663076f,0.0115484912f,0.0116311964f,0.0117144259f,
0.0117981825f,0.0118824691f,0.0119672893f,0.0120526459f,0.0121385409f,0.0122249788f,0.0123119606f,0.0123994909f,0.0124875717f,0.0125762075f,0.0126653994f,0.0127551518f,
0.0128454678f,0.012936349f,0.0130278002f,0.0131198242f,0.0132124228f,0.0133056007f,0.0133993607f,0.0134937055f,0.013588638f,0.0136841629f,0.0137802819f,0.0138769979f,
0.0139743155f,0.0140722375f,0.0141707677f,0.014269908f,0.0143696629f,0.0144700352f,0.0145710278f,0.0146726454f,0.0147748897f,0.0148777654f,0.0149812745f,0.0150854224f,
0.0151902111f,0.0152956443f,0.0154017247f,0.015508458f,0.0156158451f,0.0157238916f,0.0158325993f,0.0159419719f,0.0160520151f,0.0161627308f,0.0162741207f,0.0163861923f,
0.0164989475f,0.0166123882f,0.0167265218f,0.0168413483f,0.0169568732f,0.0170730986f,0.0171900298f,0.0173076708f,0.0174260251f,0.0175450966f,0.017664887f,0.017785402f,
0.0179066453f,0.0180286206f,0.0181513317f,0.0182747822f,0.0183989778f,0.0185239185f,0.0186496116f,0.0187760592f,0.0189032666f,0.0190312378f,0.0191599745f,0.0192894842f,
0.0194197688f,0.019550832f,0.0196826793f,0.0198153127f,0.0199487377f,0.0200829599f,0.0202179793f,0.0203538053f,0.0204904377f,0.0206278823f,0.0207661446f,0.0209052265f,
0.0210451335f,0.0211858694f,0.0213274397f,0.0214698464f,0.021613095f,0.021757191f,0.0219021384f,0.0220479406f,0.0221946016f,0.0223421268f,0.02249052f,0.0226397868f,
0.0227899309f,0.0229409561f,0.0230928678f,0.0232456699f,0.0233993679f,0.0235539675f,0.0237094685f,0.0238658804f,0.0240232069f,0.0241814516f,0.0243406184f,0.0245007128f,
0.0246617403f,0.0248237047f,0.0249866117f,0.0251504648f,0.0253152698f,0.0254810322f,0.0256477538f,0.0258154441f,0.0259841029f,0.0261537395f,0.026324356f,0.0264959577f,
0.0266685504f,0.0268421378f,0.0270167273f,0.0271923225f,0.0273689274f,0.0275465492f,0.0277251899f,0.0279048588f,0.0280855577f,0.0282672942f,0.0284500699f,0.0286338944f,
0.0288187694f,0.0290047023f,0.029191697f,0.0293797608f,0.0295688957f,0.029759109f,0.0299504083f,0.0301427934f,0.0303362757f,0.0305308569f,0.0307265427f,0.0309233405f,
0.031121254f,0.0313202888f,0.0315204524f,0.0317217484f,0.0319241807f,0.0321277604f,0.0323324874f,0.0325383693f,0.0327454135f,0.0329536274f,0.0331630111f,0.0333735719f,
0.0335853174f,0.033798255f,0.0340123847f,0.0342277177f,0.0344442576f,0.034662012f,0.0348809846f,0.0351011828f,0.035322614f,0.0355452783f,0.0357691869f,0.0359943472f,
0.0362207592f,0.036448434f,0.0366773792f,0.0369075947f,0.0371390916f,0.0373718739f,0.0376059487f,0.03784132f,0.0380779989f,0.0383159854f,0.0385552905f,0.038795922f,
0.0390378796f,0.0392811783f,0.0395258181f,0.0397718064f,0.0400191508f,0.0402678587f,0.0405179337f,0.0407693833f,0.0410222188f,0.04127644f,0.0415320583f,0.0417890772f,
0.0420475043f,0.0423073471f,0.0425686128f,0.0428313091f,0.0430954397f,0.0433610119f,0.0436280333f,0.0438965149f,0.0441664569f,0.0444378704f,0.0447107591f,0.0449851342f,
0.0452609994f,0.0455383621f,0.0458172299f,0.0460976139f,0.046379514f,0.0466629416f,0.0469479039f,0.0472344086f,0.0475224592f,0.047812067f,0.0481032394f,0.0483959801f,
0.0486903004f,0.048986204f,0.0492837019f,0.0495828018f,0.0498835072f,0.0501858257f,0.0504897684f,0.0507953428f,0.0511025563f,0.0514114127f,0.0517219231f,0.0520340949f,
0.0523479357f,0.0526634529f,0.0529806577f,0.05329955f,0.0536201447f,0.0539424457f,0.054266464f,0.0545922071f,0.0549196787f,0.0552488938f,0.0555798523f,0.0559125692f,
0.0562470518f,0.0565833077f,0.0569213405f,0.0572611615f,0.0576027818f,0.0579462089f,0.0582914464f,0.0586385056f,0.0589873977f,0.0593381263f,0.0596907027f,0.0600451343f,
0.0604014285f,0.0607595965f,0.0611196458f,0.0614815839f,0.0618454218f,0.0622111671f,0.0625788271f,0.0629484132f,0.0633199289f,0.0636933893f,0.0640688017f,0.0644461736f,
0.0648255125f,0.0652068332f,0.0655901358f,0.0659754351f,0.0663627386f,0.0667520612f,0.067143403f,0.0675367713f,0.0679321885f,0.0683296546f,0.0687291771f,0.0691307783f,
0.0695344508f,0.0699402094f,0.0703480691f,0.0707580298f,0.071170114f,0.0715843216f,0.07200066f,0.0724191442f,0.0728397891f,0.0732625946f,0.0736875683f,0.0741147324f,
0.0745440871f,0.074975647f,0.0754094198f,0.0758454129f,0.0762836412f,0.076724112f,0.077166833f,0.0776118189f,0.0780590773f,0.0785086229f,0.078960456f,0.0794145912f,
0.0798710436f,0.0803298205f,0.0807909295f,0.0812543854f,0.0817201957f,0.0821883678f,0.0826589167f,0.0831318498f,0.0836071894f,0.084084928f,0.0845650807f,0.0850476697f,
0.0855326951f,0.0860201716f,0.0865101144f,0.0870025232f,0.0874974132f,0.087994799f,0.0884946883f,0.0889970884f,0.0895020217f,0.0900094882f,0.0905195102f,0.0910320878f,
0.0915472358f,0.0920649618f,0.092585288f,0.0931082144f,0.093633756f,0.0941619277f,0.0946927443f,0.0952262059f,0.0957623273f,0.0963011235f,0.0968426093f,0.0973867849f,
0.0979336724f,0.0984832793f,0.0990356207f,0.0995907038f,0.100148544f,0.100709155f,0.101272538f,0.101838723f,0.102407701f,0.102979504f,0.10355413f,0.104131594f,
0.104711913f,0.105295099f,0.105881162f,0.106470108f,0.10706196f,0.107656725f,0.108254418f,0.108855054f,0.10945864f,0.110065185f,0.110674709f,0.111287229f,
0.111902744f,0.112521283f,0.113142841f,0.113767445f,0.114395104f,0.115025833f,0.115659639f,0.116296537f,0.116936542f,0.117579669f,0.118225925f,0.118875332f,
0.119527899f,0.120183632f,0.120842561f,0.121504687f,0.122170024f,0.122838587f,0.123510391f,0.12418545f,0.124863781f,0.125545397f,0.126230299f,0.12691851f,
0.127610058f,0.128304929f,0.129003167f,0.129704759f,0.130409732f,0.131118104f,0.131829888f,0.132545084f,0.133263722f,0.133985803f,0.13471137f,0.135440394f,
0.136172935f,0.136908963f,0.137648523f,0.138391629f,0.139138281f,0.13988851f,0.140642315f,0.141399726f,0.142160743f,0.142925382f,0.143693686f,0.144465625f,
0.145241246f,0.146020561f,0.146803573f,0.147590309f,0.148380771f,0.149174988f,0.149972975f,0.150774747f,0.151580304f,0.152389675f,0.153202876f,0.154019922f,
0.154840827f,0.155665621f,0.15649429f,0.157326862f,0.158163369f,0.159003824f,0.159848213f,0.160696596f,0.161548957f,0.162405327f,0.163265705f,0.164130136f,
0.164998621f,0.165871158f,0.166747808f,0.167628542f,0.168513402f,0.169402406f,0.170295566f,0.171192884f,0.172094405f,0.173000127f,0.173910066f,0.174824238f,
0.175742686f,0.176665395f,0.177592397f,0.178523704f,0.179459348f,0.180399328f,0.181343675f,0.182292402f,0.183245525f,0.184203058f,0.185165018f,0.186131433f,
0.187102318f,0.188077688f,0.189057574f,0.190041959f,0.191030905f,0.192024395f,0.193022475f,0.194025144f,0.195032418f,0.196044341f,0.197060898f,0.198082134f,
0.199108064f,0.200138688f,0.201174051f,0.202214137f,0.203259006f,0.204308659f,0.205363095f,0.206422374f,0.20748648f,0.208555445f,0.209629297f,0.210708037f,
0.211791694f,0.212880298f,0.21397385f,0.215072379f,0.216175914f,0.217284456f,0.218398035f,0.219516665f,0.220640376f,0.221769184f,0.222903103f,0.224042147f,
0.225186363f,0.226335749f,0.227490336f,0.228650153f,0.229815185f,0.230985492f,0.232161075f,0.233341947f,0.234528154f,0.235719696f,0.236916587f,0.238118887f,
0.239326581f,0.2405397f,0.241758257f,0.242982298f,0.244211823f,0.245446861f,0.246687427f,0.247933552f,0.249185249f,0.250442535f,0.251705468f,0.252974033f,
0.254248232f,0.255528152f,0.256813765f,0.258105099f,0.259402215f,0.260705084f,0.262013733f,0.263328224f,0.264648557f,0.26597476f,0.267306834f,0.26864484f,
0.269988745f,0.271338642f,0.272694498f,0.274056345f,0.275424242f,0.276798159f,0.278178155f,0.279564261f,0.280956477f,0.282354832f,0.283759356f,0.285170078f,
0.286587f,0.28801018f,0.289439589f,0.290875316f,0.292317331f,0.293765664f,0.295220375f,0.296681464f,0.29814896f,0.299622893f,0.301103264f,0.302590132f,
0.304083467f,0.305583358f,0.307089806f,0.30860284f,0.31012246f,0.311648726f,0.313181639f,0.314721227f,0.31626752f,0.317820549f,0.319380313f,0.320946872f,
0.322520256f,0.324100465f,0.325687498f,0.327281445f,0.328882307f,0.330490112f,0.332104862f,0.333726585f,0.335355371f,0.336991161f,0.338634014f,0.34028399f,
0.341941088f,0.34360531f,0.345276713f,0.346955329f,0.348641187f,0.350334287f,0.352034658f,0.353742361f,0.355457366f,0.357179761f,0.358909577f,0.360646784f,
0.362391442f,0.36414358f,0.365903229f,0.367670387f,0.369445115f,0.371227443f,0.373017401f,0.374814987f,0.376620233f,0.378433198f,0.380253911f,0.382082343f,
0.383918583f,0.385762662f,0.387614548f,0.389474332f,0.391342044f,0.393217653f,0.395101249f,0.396992832f,0.398892432f,0.400800079f,0.402715802f,0.404639661f,
0.406571656f,0.408511817f,0.410460174f,0.412416756f,0.414381623f,0.416354775f,0.418336242f,0.420326084f,0.42232427f,0.42433092f,0.426345974f,0.428369522f,
0.430401593f,0.432442188f,0.434491366f,0.436549127f,0.438615531f,0.440690607f,0.442774355f,0.444866866f,0.446968108f,0.449078172f,0.451197028f,0.453324765f,
0.455461383f,0.457606912f,0.459761411f,0.461924881f,0.464097381f,0.46627894f,0.46846956f,0.470669299f,0.472878218f,0.475096285f,0.477323592f,0.479560137f,
0.48180598f,0.484061122f,0.486325622f,0.488599539f,0.490882844f,0.493175596f,0.495477825f,0.497789592f,0.500110924f,0.502441823f,0.504782379f,0.50713259f,
0.509492457f,0.511862099f,0.514241457f,0.51663065f,0.519029617f,0.521438539f,0.523857296f,0.526286006f,0.52872473f,0.531173468f,0.533632219f,0.536101043f,
0.53858f,0.54106909f,0.543568432f,0.546077967f,0.548597753f,0.551127851f,0.553668261f,0.556219101f,0.558780313f,0.561351955f,0.563934147f,0.56652683f,
0.569130063f,0.571743846f,0.574368358f,0.577003479f,0.579649329f,0.582305908f,0.584973276f,0.587651491f,0.590340555f,0.593040526f,0.595751464f,0.59847337f,
0.601206243f,0.603950202f,0.606705248f,0.60947144f,0.612248838f,0.615037382f,0.61783725f,0.620648324f,0.623470783f,0.626304626f,0.629149854f,0.632006526f,
0.634874701f,0.63775444f,0.640645683f,0.643548548f,0.646463096f,0.649389327f,0.652327299f,0.655277073f,0.658238649f,0.661212027f,0.664197385f,0.667194605f,
0.670203865f,0.673225105f,0.676258445f,0.679303885f,0.682361484f,0.685431242f,0.688513279f,0.691607594f,0.694714189f,0.69783318f,0.70096451f,0.704108357f,
0.707264662f,0.710433543f,0.713614941f,0.716809034f,0.720015764f,0.72323519f,0.726467371f,0.729712307f,0.732970119f,0.736240864f,0.739524484f,0.742821097f,
0.746130705f,0.749453366f,0.752789199f,0.756138146f,0.759500265f,0.762875676f,0.766264379f,0.769666374f,0.773081779f,0.776510596f,0.779952943f,0.783408761f,
0.786878109f,0.790361106f,0.793857753f,0.797368109f,0.800892234f,0.804430127f,0.807981908f,0.811547518f,0.815127134f,0.818720698f,0.822328329f,0.825950027f,
0.82958585f,0.83323586f,0.836900055f,0.840578556f,0.844271421f,0.847978592f,0.851700246f,0.855436325f,0.859186947f,0.862952113f,0.866731882f,0.870526373f,
0.874335527f,0.878159523f,0.881998241f,0.88585192f,0.88972044f,0.893603981f,0.897502482f,0.901416123f,0.905344784f,0.909288704f,0.913247824f,0.917222202f,
0.921211898f,0.925216973f,0.929237485f,0.933273435f,0.937324941f,0.941392064f,0.945474803f,0.949573219f,0.95368737f,0.957817316f,0.961963117f,0.966124773f,
0.970302403f,0.974496067f,0.978705764f,0.982931554f,0.987173557f,0.991431713f,0.995706201f,0.99999702f};
static const float t_pow9_hi[2048] = {
3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,
3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,
3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,
3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,
3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,
3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,
3.00000011e-06f,3.00000011e-06f,3.00000011e-06f,3.00000033e-06f,3.00000033e-06f,3.00000033e-06f,3.00000033e-06f,3.00000033e-06f,3.00000033e-06f,3.00000056e-06f,3.00000056e-06f,3.00000056e-06f,
3.00000056e-06f,3.00000079e-06f,3.00000079e-06f,3.00000079e-06f,3.00000102e-06f,3.00000102e-06f,3.00000124e-06f,3.00000124e-06f,3.00000147e-06f,3.00000147e-06f,3.0000017e-06f,3.00000193e-06f,
3.00000193e-06f,3.00000215e-06f,3.00000238e-06f,3.00000261e-06f,3.00000283e-06f,3.00000306e-06f,3.00000352e-06f,3.00000374e-06f,3.0000042e-06f,3.00000443e-06f,3.00000488e-06f,3.00000534e-06f,
3.00000579e-06f,3.00000625e-06f,3.0000067e-06f,3.00000715e-06f,3.00000784e-06f,3.00000852e-06f,3.0000092e-06f,3.00000988e-06f,3.00001079e-06f,3.00001147e-06f,3.00001238e-06f,3.00001329e-06f,
3.00001443e-06f,3.00001557e-06f,3.0000167e-06f,3.00001784e-06f,3.00001921e-06f,3.00002057e-06f,3.00002216e-06f,3.00002375e-06f,3.00002534e-06f,3.00002716e-06f,3.00002921e-06f,3.00003126e-06f,
3.0000333e-06f,3.00003558e-06f,3.00003808e-06f,3.00004058e-06f,3.00004331e-06f,3.00004626e-06f,3.00004922e-06f,3.00005263e-06f,3.00005604e-06f,3.00005968e-06f,3.00006354e-06f,3.00006741e-06f,
3.00007173e-06f,3.00007628e-06f,3.00008105e-06f,3.00008605e-06f,3.00009128e-06f,3.00009697e-06f,3.00010265e-06f,3.00010902e-06f,3.00011538e-06f,3.00012221e-06f,3.00012948e-06f,3.00013721e-06f,
3.00014517e-06f,3.00015358e-06f,3.00016222e-06f,3.00017155e-06f,3.00018132e-06f,3.00019155e-06f,3.00020224e-06f,3.00021361e-06f,3.00022521e-06f,3.00023771e-06f,3.00025067e-06f,3.00026431e-06f,
3.00027864e-06f,3.00029342e-06f,3.00030911e-06f,3.00032548e-06f,3.00034253e-06f,3.00036049e-06f,3.00037937e-06f,3.00039892e-06f,3.00041938e-06f,3.00044098e-06f,3.00046327e-06f,3.00048669e-06f,
3.00051124e-06f,3.00053671e-06f,3.00056331e-06f,3.00059128e-06f,3.00062015e-06f,3.00065062e-06f,3.00068223e-06f,3.0007152e-06f,3.00074953e-06f,3.00078523e-06f,3.00082252e-06f,3.0008614e-06f,
3.0009021e-06f,3.00094416e-06f,3.00098804e-06f,3.00103397e-06f,3.0010815e-06f,3.00113106e-06f,3.00118245e-06f,3.00123611e-06f,3.00129182e-06f,3.0013498e-06f,3.00141005e-06f,3.00147281e-06f,
3.00153783e-06f,3.00160536e-06f,3.00167562e-06f,3.00174861e-06f,3.00182433e-06f,3.001903e-06f,3.00198462e-06f,3.00206943e-06f,3.00215743e-06f,3.0022486e-06f,3.00234319e-06f,3.00244119e-06f,
3.00254305e-06f,3.00264855e-06f,3.00275792e-06f,3.00287115e-06f,3.00298871e-06f,3.00311035e-06f,3.00323654e-06f,3.00336706e-06f,3.00350234e-06f,3.00364218e-06f,3.00378724e-06f,3.00393731e-06f,
3.0040926e-06f,3.00425313e-06f,3.00441934e-06f,3.00459146e-06f,3.00476927e-06f,3.00495321e-06f,3.00514353e-06f,3.0053402e-06f,3.00554348e-06f,3.0057538e-06f,3.00597094e-06f,3.00619536e-06f,
3.00642728e-06f,3.0066667e-06f,3.00691408e-06f,3.00716965e-06f,3.00743341e-06f,3.00770603e-06f,3.00798706e-06f,3.00827742e-06f,3.0085771e-06f,3.00888632e-06f,3.00920533e-06f,3.00953434e-06f,
3.00987381e-06f,3.01022396e-06f,3.01058526e-06f,3.0109577e-06f,3.01134151e-06f,3.01173736e-06f,3.0121455e-06f,3.01256614e-06f,3.01299951e-06f,3.0134463e-06f,3.01390628e-06f,3.01438058e-06f,
3.01486875e-06f,3.01537193e-06f,3.01588989e-06f,3.01642331e-06f,3.01697264e-06f,3.01753812e-06f,3.0181202e-06f,3.01871933e-06f,3.01933619e-06f,3.01997079e-06f,3.02062381e-06f,3.0212957e-06f,
3.02198691e-06f,3.02269791e-06f,3.02342914e-06f,3.0241813e-06f,3.02495482e-06f,3.02575017e-06f,3.02656781e-06f,3.02740841e-06f,3.02827243e-06f,3.02916078e-06f,3.03007346e-06f,3.0310116e-06f,
3.03197544e-06f,3.03296588e-06f,3.03398338e-06f,3.03502839e-06f,3.03610204e-06f,3.03720481e-06f,3.03833713e-06f,3.03949992e-06f,3.04069385e-06f,3.04191985e-06f,3.04317837e-06f,3.0444703e-06f,
3.04579635e-06f,3.04715718e-06f,3.04855394e-06f,3.04998707e-06f,3.05145772e-06f,3.05296658e-06f,3.05451454e-06f,3.05610229e-06f,3.05773096e-06f,3.05940148e-06f,3.06111474e-06f,3.06287166e-06f,
3.06467314e-06f,3.06652009e-06f,3.06841389e-06f,3.07035521e-06f,3.07234518e-06f,3.07438495e-06f,3.07647542e-06f,3.07861774e-06f,3.08081326e-06f,3.08306289e-06f,3.08536801e-06f,3.08772951e-06f,
3.09014854e-06f,3.09262668e-06f,3.09516508e-06f,3.09776487e-06f,3.10042765e-06f,3.10315409e-06f,3.10594623e-06f,3.10880523e-06f,3.11173221e-06f,3.11472877e-06f,3.11779627e-06f,3.12093653e-06f,
3.12415045e-06f,3.1274401e-06f,3.13080659e-06f,3.13425176e-06f,3.13777718e-06f,3.14138447e-06f,3.14507497e-06f,3.14885074e-06f,3.15271336e-06f,3.15666466e-06f,3.16070623e-06f,3.16483988e-06f,
3.16906767e-06f,3.17339118e-06f,3.17781223e-06f,3.1823331e-06f,3.18695561e-06f,3.19168157e-06f,3.19651326e-06f,3.2014525e-06f,3.20650133e-06f,3.21166226e-06f,3.2169371e-06f,3.2223279e-06f,
3.2278374e-06f,3.2334674e-06f,3.2392204e-06f,3.24509892e-06f,3.25110477e-06f,3.25724091e-06f,3.2635096e-06f,3.26991335e-06f,3.27645466e-06f,3.28313604e-06f,3.28995998e-06f,3.29692944e-06f,
3.30404714e-06f,3.31131537e-06f,3.31873753e-06f,3.32631589e-06f,3.33405342e-06f,3.34195329e-06f,3.35001846e-06f,3.35825143e-06f,3.36665585e-06f,3.37523443e-06f,3.38399059e-06f,3.39292728e-06f,
3.40204792e-06f,3.41135569e-06f,3.42085377e-06f,3.43054603e-06f,3.44043542e-06f,3.45052558e-06f,3.46082015e-06f,3.47132277e-06f,3.48203707e-06f,3.49296647e-06f,3.50411506e-06f,3.5154867e-06f,
3.52708503e-06f,3.53891392e-06f,3.55097768e-06f,3.56328019e-06f,3.57582553e-06f,3.5886178e-06f,3.60166155e-06f,3.61496063e-06f,3.62851983e-06f,3.64234324e-06f,3.65643564e-06f,3.67080111e-06f,
3.68544465e-06f,3.70037083e-06f,3.7155844e-06f,3.73109037e-06f,3.74689307e-06f,3.76299818e-06f,3.77941001e-06f,3.79613402e-06f,3.81317545e-06f,3.8305393e-06f,3.84823124e-06f,3.86625607e-06f,
3.88462013e-06f,3.90332798e-06f,3.92238553e-06f,3.94179915e-06f,3.96157338e-06f,3.98171551e-06f,4.00223007e-06f,4.02312389e-06f,4.04440289e-06f,4.06607342e-06f,4.0881414e-06f,4.11061365e-06f,
4.13349608e-06f,4.15679506e-06f,4.18051786e-06f,4.20467086e-06f,4.22926087e-06f,4.25429471e-06f,4.27977966e-06f,4.30572209e-06f,4.33212972e-06f,4.35900984e-06f,4.38636926e-06f,4.41421616e-06f,
4.44255738e-06f,4.4714011e-06f,4.50075459e-06f,4.53062648e-06f,4.56102362e-06f,4.59195508e-06f,4.62342814e-06f,4.6554519e-06f,4.6880341e-06f,4.72118336e-06f,4.75490833e-06f,4.78921811e-06f,
4.82412088e-06f,4.85962573e-06f,4.89574177e-06f,4.93247808e-06f,4.96984421e-06f,5.00784927e-06f,5.04650279e-06f,5.08581479e-06f,5.12579436e-06f,5.1664515e-06f,5.20779668e-06f,5.24983943e-06f,
5.29259069e-06f,5.33605998e-06f,5.3802587e-06f,5.42519683e-06f,5.4708853e-06f,5.51733501e-06f,5.56455734e-06f,5.61256275e-06f,5.6613635e-06f,5.71097007e-06f,5.76139473e-06f,5.81264885e-06f,
5.86474425e-06f,5.91769322e-06f,5.97150802e-06f,6.02620094e-06f,6.08178379e-06f,6.13826978e-06f,6.19567163e-06f,6.25400207e-06f,6.3132743e-06f,6.37350195e-06f,6.4346973e-06f,6.4968749e-06f,
6.5600484e-06f,6.62423099e-06f,6.68943721e-06f,6.75568117e-06f,6.82297741e-06f,6.89134004e-06f,6.9607845e-06f,7.03132491e-06f,7.10297627e-06f,7.17575449e-06f,7.24967458e-06f,7.32475246e-06f,
7.40100359e-06f,7.47844342e-06f,7.55708925e-06f,7.63695698e-06f,7.71806208e-06f,7.80042228e-06f,7.88405487e-06f,7.96897621e-06f,8.05520358e-06f,8.14275427e-06f,8.23164737e-06f,8.32189835e-06f,
8.41352721e-06f,8.50655215e-06f,8.60099135e-06f,8.6968621e-06f,8.79418531e-06f,8.89298008e-06f,8.99326369e-06f,9.09505798e-06f,9.19838203e-06f,9.30325496e-06f,9.40969767e-06f,9.51773018e-06f,
9.62737431e-06f,9.73865008e-06f,9.8515784e-06f,9.9661811e-06f,1.008248e-05f,1.0200496e-05f,1.03202519e-05f,1.04417704e-05f,1.05650734e-05f,1.06901834e-05f,1.08171243e-05f,1.09459188e-05f,
1.10765905e-05f,1.12091639e-05f,1.13436618e-05f,1.14801096e-05f,1.1618532e-05f,1.17589534e-05f,1.19013985e-05f,1.20458935e-05f,1.21924631e-05f,1.23411346e-05f,1.24919325e-05f,1.26448849e-05f,
1.28000183e-05f,1.29573582e-05f,1.31169336e-05f,1.32787718e-05f,1.3442901e-05f,1.36093486e-05f,1.37781426e-05f,1.39493131e-05f,1.41228893e-05f,1.42989002e-05f,1.44773749e-05f,1.46583434e-05f,
1.48418376e-05f,1.50278865e-05f,1.52165221e-05f,1.54077752e-05f,1.56016777e-05f,1.57982595e-05f,1.59975571e-05f,1.61995995e-05f,1.64044195e-05f,1.66120535e-05f,1.68225324e-05f,1.70358926e-05f,
1.7252165e-05f,1.74713859e-05f,1.76935919e-05f,1.79188155e-05f,1.8147095e-05f,1.83784632e-05f,1.861296e-05f,1.88506201e-05f,1.90914816e-05f,1.93355809e-05f,1.9582958e-05f,1.98336493e-05f,
2.0087693e-05f,2.03451309e-05f,2.06059995e-05f,2.08703404e-05f,2.11381921e-05f,2.1409598e-05f,2.16845947e-05f,2.19632293e-05f,2.22455383e-05f,2.25315671e-05f,2.28213576e-05f,2.31149534e-05f,
2.34123963e-05f,2.37137319e-05f,2.4019002e-05f,2.43282557e-05f,2.46415348e-05f,2.49588848e-05f,2.52803529e-05f,2.56059866e-05f,2.59358312e-05f,2.62699341e-05f,2.66083443e-05f,2.69511092e-05f,
2.72982779e-05f,2.76498995e-05f,2.80060249e-05f,2.83667014e-05f,2.87319835e-05f,2.91019187e-05f,2.94765596e-05f,2.98559607e-05f,3.02401731e-05f,3.06292495e-05f,3.10232426e-05f,3.14222052e-05f,
3.18261991e-05f,3.22352716e-05f,3.2649481e-05f,3.30688854e-05f,3.34935394e-05f,3.39235012e-05f,3.4358829e-05f,3.47995774e-05f,3.52458082e-05f,3.56975834e-05f,3.61549573e-05f,3.6617992e-05f,
3.70867492e-05f,3.75612944e-05f,3.80416823e-05f,3.85279818e-05f,3.90202513e-05f,3.95185598e-05f,4.00229692e-05f,4.05335413e-05f,4.10503453e-05f,4.15734503e-05f,4.21029144e-05f,4.26388142e-05f,
4.31812114e-05f,4.37301787e-05f,4.42857818e-05f,4.48480932e-05f,4.54171823e-05f,4.59931216e-05f,4.65759804e-05f,4.71658313e-05f,4.77627509e-05f,4.83668082e-05f,4.89780832e-05f,4.95966451e-05f,
5.02225703e-05f,5.08559388e-05f,5.14968233e-05f,5.21453039e-05f,5.28014607e-05f,5.346537e-05f,5.41371119e-05f,5.481677e-05f,5.55044171e-05f,5.62001442e-05f,5.69040312e-05f,5.76161583e-05f,
5.83366163e-05f,5.90654818e-05f,5.98028419e-05f,6.05487876e-05f,6.13034063e-05f,6.20667779e-05f,6.28389971e-05f,6.36201512e-05f,6.44103275e-05f,6.52096205e-05f,6.60181249e-05f,6.6835928e-05f,
6.76631244e-05f,6.84998085e-05f,6.93460679e-05f,7.02020116e-05f,7.10677268e-05f,7.19433083e-05f,7.28288651e-05f,7.37244845e-05f,7.46302758e-05f,7.55463334e-05f,7.6472752e-05f,7.74096479e-05f,
7.83571231e-05f,7.93152649e-05f,8.02841969e-05f,8.12640137e-05f,8.22548318e-05f,8.32567457e-05f,8.42698719e-05f,8.52943194e-05f,8.63301902e-05f,8.7377608e-05f,8.84366746e-05f,8.95075136e-05f,
9.0590227e-05f,9.16849385e-05f,9.27917572e-05f,9.39107995e-05f,9.50421891e-05f,9.61860351e-05f,9.73424685e-05f,9.85116058e-05f,9.96935632e-05f,0.000100888472f,0.000102096448f,0.000103317623f,
0.000104552113f,0.000105800049f,0.000107061554f,0.000108336768f,0.000109625813f,0.000110928821f,0.000112245922f,0.000113577255f,0.000114922943f,0.000116283125f,0.000117657946f,0.00011904753f,
0.000120452023f,0.000121871562f,0.000123306279f,0.000124756334f,0.000126221857f,0.000127702995f,0.000129199892f,0.00013071268f,0.000132241534f,0.000133786583f,0.000135347989f,0.000136925897f,
0.000138520438f,0.0001401318f,0.000141760116f,0.000143405545f,0.000145068261f,0.000146748382f,0.00014844611f,0.000150161577f,0.000151894958f,0.000153646411f,0.000155416099f,0.00015720418f,
0.000159010844f,0.000160836236f,0.000162680546f,0.000164543919f,0.000166426544f,0.000168328595f,0.000170250234f,0.000172191649f,0.000174153014f,0.000176134505f,0.000178136295f,0.000180158575f,
0.000182201533f,0.000184265344f,0.000186350197f,0.000188456266f,0.000190583756f,0.000192732856f,0.00019490374f,0.000197096611f,0.000199311675f,0.000201549119f,0.000203809119f,0.000206091907f,
0.000208397658f,0.00021072659f,0.000213078893f,0.000215454769f,0.000217854438f,0.000220278103f,0.000222725968f,0.000225198251f,0.000227695156f,0.000230216887f,0.00023276369f,0.000235335756f,
0.000237933302f,0.000240556561f,0.000243205752f,0.000245881092f,0.00024858283f,0.000251311139f,0.000254066312f,0.000256848522f,0.000259658031f,0.000262495072f,0.000265359879f,0.000268252683f,
0.000271173718f,0.000274123246f,0.00027710147f,0.000280108652f,0.000283145055f,0.00028621091f,0.000289306452f,0.000292431971f,0.000295587699f,0.00029877387f,0.000301990745f,0.000305238616f,
0.000308517716f,0.000311828306f,0.000315170648f,0.000318545004f,0.000321951666f,0.000325390894f,0.000328862952f,0.000332368101f,0.000335906632f,0.000339478807f,0.000343084947f,0.000346725283f,
0.000350400107f,0.00035410971f,0.000357854413f,0.000361634447f,0.000365450134f,0.000369301764f,0.000373189629f,0.000377114018f,0.000381075224f,0.000385073596f,0.000389109366f,0.000393182912f,
0.000397294498f,0.000401444413f,0.000405633007f,0.0004098606f,0.000414127484f,0.000418433978f,0.000422780431f,0.000427167106f,0.000431594381f,0.000436062575f,0.00044057201f,0.000445123005f,
0.00044971591f,0.000454351044f,0.000459028786f,0.000463749428f,0.000468513317f,0.000473320833f,0.000478172296f,0.000483068085f,0.000488008518f,0.000492993975f,0.000498024747f,0.000503101328f,
0.000508223951f,0.000513393024f,0.000518608955f,0.000523872033f,0.000529182726f,0.000534541323f,0.000539948232f,0.000545403804f,0.000550908502f,0.000556462677f,0.000562066678f,0.000567720912f,
0.000573425728f,0.000579181651f,0.000584988913f,0.000590848038f,0.000596759375f,0.00060272339f,0.000608740374f,0.000614810851f,0.00062093517f,0.000627113797f,0.000633347081f,0.000639635487f,
0.000645979424f,0.000652379356f,0.000658835692f,0.000665348838f,0.000671919261f,0.000678547367f,0.000685233681f,0.000691978552f,0.000698782445f,0.000705645827f,0.000712569163f,0.000719552918f,
0.0007265975f,0.000733703433f,0.000740871124f,0.000748101098f,0.000755393761f,0.00076274958f,0.000770169136f,0.000777652836f,0.000785201148f,0.000792814593f,0.000800493639f,0.000808238809f,
0.000816050568f,0.00082392944f,0.000831875892f,0.000839890447f,0.000847973628f,0.000856125902f,0.00086434785f,0.000872639939f,0.00088100275f,0.000889436691f,0.000897942402f,0.000906520407f,
0.000915171171f,0.000923895277f,0.000932693249f,0.00094156561f,0.000950513f,0.000959535886f,0.000968634849f,0.000977810472f,0.000987063278f,0.00099639385f,0.00100580265f,0.0010152905f,
0.00102485775f,0.00103450508f,0.0010442331f,0.00105404225f,0.00106393336f,0.00107390678f,0.0010839632f,0.00109410333f,0.00110432762f,0.00111463678f,0.00112503138f,0.00113551202f,
0.00114607927f,0.00115673395f,0.00116747641f,0.00117830758f,0.00118922791f,0.00120023801f,0.00121133868f,0.0012225305f,0.00123381405f,0.00124519004f,0.00125665916f,0.001268222f,
0.00127987924f,0.0012916316f,0.00130347977f,0.00131542445f,0.00132746622f,0.00133960578f,0.00135184394f,0.00136418128f,0.00137661851f,0.00138915633f,0.00140179554f,0.00141453685f,
0.00142738083f,0.00144032831f,0.00145337998f,0.00146653666f,0.00147979893f,0.00149316771f,0.0015066436f,0.00152022741f,0.00153391983f,0.00154772168f,0.00156163378f,0.0015756567f,
0.0015897915f,0.00160403864f,0.00161839905f,0.00163287367f,0.00164746295f,0.00166216795f,0.00167698937f,0.00169192802f,0.00170698471f,0.00172216026f,0.00173745549f,0.00175287121f,
0.00176840834f,0.00178406748f,0.00179984968f,0.00181575574f,0.00183178636f,0.00184794259f,0.00186422525f,0.00188063504f,0.00189717312f,0.00191384007f,0.00193063682f,0.00194756442f,
0.00196462357f,0.00198181532f,0.00199914025f,0.00201659976f,0.00203419453f,0.00205192529f,0.00206979294f,0.0020877989f,0.00210594363f,0.00212422805f,0.00214265333f,0.00216122041f,
0.00217993022f,0.00219878345f,0.0022177815f,0.00223692483f,0.00225621485f,0.00227565225f,0.0022952382f,0.00231497362f,0.00233485969f,0.00235489686f,0.00237508677f,0.00239542988f,
0.00241592783f,0.00243658107f,0.00245739077f,0.00247835834f,0.00249948422f,0.00252076983f,0.00254221633f,0.00256382441f,0.00258559547f,0.00260753022f,0.00262963003f,0.00265189586f,
0.00267432886f,0.0026969302f,0.0027197008f,0.00274264184f,0.00276575424f,0.00278903963f,0.00281249848f,0.00283613242f,0.00285994238f,0.00288392953f,0.00290809525f,0.00293244026f,
0.00295696571f,0.00298167323f,0.00300656375f,0.00303163845f,0.00305689848f,0.00308234501f,0.00310797943f,0.00313380291f,0.00315981638f,0.00318602123f,0.00321241864f,0.00323901023f,
0.00326579669f,0.00329277944f,0.00331995985f,0.00334733934f,0.0033749186f,0.00340269948f,0.00343068317f,0.00345887057f,0.00348726334f,0.00351586263f,0.00354466983f,0.00357368635f,
0.00360291312f,0.00363235199f,0.0036620039f,0.00369187049f,0.0037219529f,0.00375225232f,0.0037827706f,0.0038135089f,0.00384446839f,0.0038756507f,0.00390705699f,0.00393868936f,
0.00397054804f,0.00400263537f,0.00403495273f,0.00406750105f,0.00410028221f,0.00413329713f,0.00416654814f,0.00420003571f,0.00423376216f,0.00426772842f,0.00430193637f,0.00433638738f,
0.00437108241f,0.00440602377f,0.0044412124f,0.00447665062f,0.0045123389f,0.00454827957f,0.00458447356f,0.0046209232f,0.00465762941f,0.00469459407f,0.00473181857f,0.00476930477f,
0.00480705407f,0.00484506832f,0.00488334894f,0.00492189731f,0.00496071531f,0.00499980478f,0.00503916712f,0.00507880375f,0.00511871697f,0.0051589082f,0.00519937882f,0.00524013117f,
0.00528116617f,0.00532248616f,0.00536409253f,0.00540598668f,0.0054481714f,0.00549064716f,0.00553341676f,0.00557648158f,0.00561984302f,0.00566350343f,0.00570746465f,0.00575172808f,
0.00579629559f,0.00584116904f,0.00588635029f,0.00593184121f,0.00597764365f,0.00602375949f,0.00607019011f,0.00611693831f,0.00616400549f,0.00621139351f,0.00625910424f,0.00630713953f,
0.00635550171f,0.00640419265f,0.00645321375f,0.00650256732f,0.00655225525f,0.00660227984f,0.00665264251f,0.00670334604f,0.00675439136f,0.00680578128f,0.00685751764f,0.00690960279f,
0.00696203811f,0.00701482594f,0.0070679686f,0.0071214675f,0.00717532588f,0.00722954469f,0.00728412624f,0.00733907335f,0.00739438739f,0.00745007116f,0.00750612607f,0.00756255444f,
0.00761935906f,0.00767654181f,0.00773410453f,0.00779204955f,0.00785037968f,0.00790909585f,0.0079682013f,0.00802769884f,0.00808758941f,0.00814787578f,0.00820856076f,0.00826964527f,
0.00833113305f,0.00839302596f,0.00845532585f,0.00851803552f,0.00858115777f,0.00864469446f,0.00870864745f,0.00877301954f,0.00883781351f,0.00890303031f,0.00896867458f,0.00903474726f,
0.00910125207f,0.00916818995f,0.00923556369f,0.00930337608f,0.00937162992f,0.00944032706f,0.00950947031f,0.00957906246f,0.00964910537f,0.00971960276f,0.00979055557f,0.00986196753f,
0.00993384141f,0.0100061791f,0.0100789834f,0.0101522561f,0.010226002f,0.0103002219f,0.0103749195f,0.0104500959f,0.0105257556f,0.0106019005f,0.0106785335f,0.0107556572f,
0.0108332746f,0.0109113874f,0.0109900003f,0.0110691143f,0.0111487322f,0.0112288585f,0.0113094943f,0.0113906432f,0.0114723081f,0.0115544917f,0.0116371959f,0.0117204254f,
0.0118041821f,0.0118884696f,0.0119732898f,0.0120586455f,0.0121445414f,0.0122309783f,0.0123179611f,0.0124054905f,0.0124935722f,0.0125822071f,0.0126713999f,0.0127611523f,
0.0128514674f,0.0129423495f,0.0130338008f,0.0131258238f,0.0132184234f,0.0133116012f,0.0134053612f,0.0134997051f,0.0135946386f,0.0136901625f,0.0137862815f,0.0138829984f,
0.013980316f,0.014078238f,0.0141767673f,0.0142759085f,0.0143756624f,0.0144760348f,0.0145770274f,0.0146786449f,0.0147808893f,0.014883765f,0.014987275f,0.015091422f,
0.0151962107f,0.0153016439f,0.0154077252f,0.0155144576f,0.0156218456f,0.0157298911f,0.0158385988f,0.0159479734f,0.0160580147f,0.0161687303f,0.0162801221f,0.0163921919f,
0.0165049471f,0.0166183896f,0.0167325214f,0.0168473478f,0.0169628728f,0.0170790982f,0.0171960313f,0.0173136722f,0.0174320247f,0.0175510962f,0.0176708866f,0.0177914016f,
0.0179126468f,0.0180346221f,0.0181573313f,0.0182807837f,0.0184049774f,0.018529918f,0.0186556112f,0.0187820606f,0.0189092662f,0.0190372374f,0.019165976f,0.0192954838f,
0.0194257684f,0.0195568316f,0.0196886789f,0.0198213123f,0.0199547373f,0.0200889595f,0.0202239808f,0.0203598049f,0.0204964373f,0.0206338819f,0.0207721442f,0.020911226f,
0.0210511331f,0.0211918689f,0.0213334393f,0.0214758459f,0.0216190964f,0.0217631906f,0.0219081379f,0.0220539402f,0.0222006012f,0.0223481264f,0.0224965196f,0.0226457864f,
0.0227959305f,0.0229469556f,0.0230988674f,0.0232516713f,0.0234053694f,0.0235599671f,0.02371547f,0.0238718819f,0.0240292065f,0.0241874512f,0.024346618f,0.0245067123f,
0.0246677399f,0.0248297043f,0.0249926113f,0.0251564663f,0.0253212713f,0.0254870318f,0.0256537553f,0.0258214436f,0.0259901024f,0.0261597391f,0.0263303556f,0.0265019573f,
0.02667455f,0.0268481374f,0.0270227268f,0.0271983221f,0.027374927f,0.0275525488f,0.0277311914f,0.0279108584f,0.0280915573f,0.0282732937f,0.0284560695f,0.028639894f,
0.028824769f,0.0290107019f,0.0291976966f,0.0293857604f,0.0295748953f,0.0297651105f,0.0299564078f,0.0301487949f,0.0303422753f,0.0305368565f,0.0307325423f,0.03092934f,
0.0311272535f,0.0313262902f,0.0315264501f,0.0317277461f,0.0319301821f,0.0321337581f,0.0323384888f,0.0325443707f,0.0327514149f,0.0329596251f,0.0331690088f,0.0333795734f,
0.0335913189f,0.0338042527f,0.0340183862f,0.0342337191f,0.0344502591f,0.0346680135f,0.034886986f,0.0351071842f,0.0353286117f,0.0355512798f,0.0357751884f,0.0360003449f,
0.0362267606f,0.0364544354f,0.0366833769f,0.0369135961f,0.0371450894f,0.0373778716f,0.0376119465f,0.0378473215f,0.0380839966f,0.0383219868f,0.038561292f,0.0388019234f,
0.039043881f,0.039287176f,0.0395318158f,0.0397778042f,0.0400251485f,0.0402738564f,0.0405239314f,0.0407753848f,0.0410282165f,0.0412824377f,0.041538056f,0.0417950749f,
0.0420535058f,0.0423133485f,0.0425746143f,0.0428373069f,0.0431014374f,0.0433670133f,0.0436340347f,0.0439025126f,0.0441724584f,0.0444438681f,0.0447167605f,0.0449911319f,
0.0452669971f,0.0455443636f,0.0458232313f,0.0461036116f,0.0463855155f,0.046668943f,0.0469539054f,0.0472404063f,0.0475284606f,0.0478180684f,0.0481092371f,0.0484019816f,
0.0486963019f,0.0489922054f,0.0492897034f,0.0495887995f,0.0498895049f,0.0501918271f,0.0504957698f,0.0508013442f,0.051108554f,0.0514174141f,0.0517279245f,0.0520400964f,
0.0523539372f,0.0526694544f,0.0529866554f,0.0533055514f,0.0536261424f,0.0539484471f,0.0542724654f,0.0545982048f,0.0549256802f,0.0552548915f,0.0555858538f,0.0559185706f,
0.0562530532f,0.0565893054f,0.0569273382f,0.0572671629f,0.0576087832f,0.0579522066f,0.0582974441f,0.0586445071f,0.0589933954f,0.059344124f,0.0596967004f,0.060051132f,
0.0604074299f,0.060765598f,0.0611256473f,0.0614875853f,0.0618514232f,0.0622171685f,0.0625848249f,0.0629544109f,0.0633259341f,0.0636993945f,0.0640747994f,0.0644521713f,
0.0648315102f,0.0652128309f,0.0655961335f,0.0659814328f,0.0663687438f,0.066758059f,0.0671494007f,0.0675427765f,0.0679381862f,0.0683356524f,0.0687351823f,0.069136776f,
0.0695404485f,0.0699462071f,0.0703540668f,0.0707640275f,0.0711761117f,0.0715903193f,0.0720066577f,0.0724251494f,0.0728457868f,0.0732685924f,0.0736935735f,0.0741207376f,
0.0745500922f,0.0749816522f,0.0754154176f,0.0758514181f,0.0762896389f,0.0767301098f,0.0771728382f,0.0776178241f,0.0780650824f,0.0785146207f,0.0789664537f,0.0794205964f,
0.0798770487f,0.0803358182f,0.0807969272f,0.0812603831f,0.0817261934f,0.0821943656f,0.0826649144f,0.0831378549f,0.0836131871f,0.0840909258f,0.0845710859f,0.0850536749f,
0.0855387002f,0.0860261768f,0.0865161121f,0.087008521f,0.0875034109f,0.0880007967f,0.088500686f,0.0890030935f,0.0895080194f,0.0900154933f,0.0905255079f,0.0910380855f,
0.0915532336f,0.0920709595f,0.0925912857f,0.0931142122f,0.0936397612f,0.0941679329f,0.094698742f,0.0952322036f,0.095768325f,0.0963071212f,0.0968486071f,0.09739279f,
0.0979396775f,0.0984892845f,0.0990416259f,0.099596709f,0.100154549f,0.100715153f,0.101278543f,0.101844721f,0.102413706f,0.102985501f,0.103560127f,0.104137592f,
0.104717918f,0.105301097f,0.10588716f,0.106476113f,0.107067965f,0.10766273f,0.108260423f,0.108861051f,0.109464638f,0.11007119f,0.110680714f,0.111293226f,
0.111908749f,0.112527281f,0.113148846f,0.11377345f,0.114401102f,0.115031831f,0.115665637f,0.116302535f,0.11694254f,0.117585666f,0.11823193f,0.11888133f,
0.119533896f,0.120189637f,0.120848559f,0.121510684f,0.122176021f,0.122844584f,0.123516396f,0.124191456f,0.124869786f,0.125551388f,0.126236305f,0.126924515f,
0.127616063f,0.128310934f,0.129009157f,0.129710764f,0.130415738f,0.131124109f,0.131835878f,0.132551089f,0.133269727f,0.133991808f,0.13471736f,0.135446399f,
0.136178926f,0.136914968f,0.137654528f,0.138397634f,0.139144287f,0.139894515f,0.14064832f,0.141405731f,0.142166749f,0.142931387f,0.143699676f,0.14447163f,
0.145247251f,0.146026552f,0.146809578f,0.1475963f,0.148386776f,0.149180993f,0.14997898f,0.150780737f,0.151586309f,0.152395681f,0.153208882f,0.154025927f,
0.154846832f,0.155671611f,0.156500295f,0.157332867f,0.158169374f,0.159009814f,0.159854218f,0.160702586f,0.161554947f,0.162411317f,0.16327171f,0.164136142f,
0.165004611f,0.165877163f,0.166753799f,0.167634547f,0.168519408f,0.169408411f,0.170301557f,0.17119889f,0.172100395f,0.173006117f,0.173916057f,0.174830243f,
0.175748676f,0.176671401f,0.177598402f,0.17852971f,0.179465353f,0.180405334f,0.18134968f,0.182298407f,0.183251515f,0.184209049f,0.185171023f,0.186137438f,
0.187108323f,0.188083693f,0.189063564f,0.190047964f,0.191036895f,0.1920304f,0.193028465f,0.194031134f,0.195038423f,0.196050331f,0.197066903f,0.198088139f,
0.199114054f,0.200144693f,0.201180041f,0.202220142f,0.203265011f,0.204314649f,0.2053691f,0.206428364f,0.207492471f,0.20856145f,0.209635288f,0.210714027f,
0.211797699f,0.212886289f,0.213979855f,0.215078384f,0.216181904f,0.217290446f,0.218404025f,0.219522655f,0.220646366f,0.221775174f,0.222909093f,0.224048153f,
0.225192368f,0.226341754f,0.227496341f,0.228656143f,0.22982119f,0.230991483f,0.232167065f,0.233347952f,0.234534144f,0.235725686f,0.236922592f,0.238124877f,
0.239332572f,0.24054569f,0.241764262f,0.242988288f,0.244217813f,0.245452851f,0.246693417f,0.247939542f,0.249191239f,0.250448555f,0.251711458f,0.252980024f,
0.254254252f,0.255534142f,0.256819755f,0.258111119f,0.259408206f,0.260711074f,0.262019753f,0.263334244f,0.264654547f,0.26598075f,0.267312825f,0.26865083f,
0.269994766f,0.271344632f,0.272700489f,0.274062335f,0.275430232f,0.276804179f,0.278184175f,0.279570282f,0.280962497f,0.282360852f,0.283765376f,0.285176069f,
0.28659302f,0.28801617f,0.289445609f,0.290881306f,0.292323321f,0.293771654f,0.295226365f,0.296687454f,0.29815495f,0.299628884f,0.301109254f,0.302596122f,
0.304089487f,0.305589378f,0.307095826f,0.30860883f,0.31012848f,0.311654717f,0.313187629f,0.314727217f,0.31627351f,0.317826539f,0.319386333f,0.320952892f,
0.322526246f,0.324106455f,0.325693518f,0.327287465f,0.328888297f,0.330496103f,0.332110852f,0.333732605f,0.335361362f,0.336997151f,0.338640034f,0.34028998f,
0.341947079f,0.3436113f,0.345282733f,0.346961319f,0.348647177f,0.350340277f,0.352040648f,0.353748351f,0.355463386f,0.357185781f,0.358915567f,0.360652775f,
0.362397432f,0.36414957f,0.365909219f,0.367676377f,0.369451135f,0.371233463f,0.373023391f,0.374820977f,0.376626253f,0.378439188f,0.380259901f,0.382088363f,
0.383924603f,0.385768652f,0.387620568f,0.389480352f,0.391348034f,0.393223643f,0.395107239f,0.396998823f,0.398898423f,0.400806069f,0.402721822f,0.404645652f,
0.406577647f,0.408517808f,0.410466164f,0.412422776f,0.414387614f,0.416360766f,0.418342233f,0.420332074f,0.42233029f,0.42433691f,0.426351994f,0.428375542f,
0.430407584f,0.432448179f,0.434497356f,0.436555117f,0.438621521f,0.440696597f,0.442780375f,0.444872856f,0.446974128f,0.449084163f,0.451203018f,0.453330755f,
0.455467373f,0.457612902f,0.459767401f,0.461930871f,0.464103371f,0.466284931f,0.46847555f,0.470675319f,0.472884208f,0.475102305f,0.477329582f,0.479566157f,
0.48181197f,0.484067142f,0.486331642f,0.488605529f,0.490888834f,0.493181586f,0.495483845f,0.497795612f,0.500116944f,0.502447844f,0.504788399f,0.50713855f,
0.509498477f,0.51186806f,0.514247477f,0.51663661f,0.519035637f,0.521444499f,0.523863316f,0.526292026f,0.52873075f,0.531179428f,0.533638179f,0.536107063f,
0.53858602f,0.54107511f,0.543574452f,0.546083927f,0.548603773f,0.551133871f,0.553674281f,0.556225121f,0.558786333f,0.561357975f,0.563940108f,0.566532791f,
0.569136024f,0.571749866f,0.574374318f,0.577009499f,0.579655349f,0.582311928f,0.584979296f,0.587657511f,0.590346575f,0.593046546f,0.595757484f,0.598479331f,
0.601212263f,0.603956223f,0.606711268f,0.60947746f,0.612254858f,0.615043402f,0.617843211f,0.620654345f,0.623476803f,0.626310647f,0.629155874f,0.632012546f,
0.634880722f,0.637760401f,0.640651703f,0.643554568f,0.646469116f,0.649395347f,0.652333319f,0.655283093f,0.65824461f,0.661218047f,0.664203346f,0.667200625f,
0.670209885f,0.673231125f,0.676264465f,0.679309905f,0.682367504f,0.685437262f,0.688519299f,0.691613555f,0.694720209f,0.697839141f,0.700970531f,0.704114377f,
0.707270682f,0.710439563f,0.713620961f,0.716814995f,0.720021725f,0.72324115f,0.726473331f,0.729718328f,0.732976139f,0.736246824f,0.739530444f,0.742827058f,
0.746136725f,0.749459386f,0.752795219f,0.756144166f,0.759506285f,0.762881696f,0.766270399f,0.769672394f,0.7730878f,0.776516616f,0.779958904f,0.783414721f,
0.786884129f,0.790367126f,0.793863773f,0.797374129f,0.800898254f,0.804436147f,0.807987869f,0.811553538f,0.815133154f,0.818726718f,0.82233429f,0.825955987f,
0.829591811f,0.83324182f,0.836906075f,0.840584576f,0.844277382f,0.847984612f,0.851706207f,0.855442286f,0.859192908f,0.862958133f,0.866737902f,0.870532393f,
0.874341547f,0.878165483f,0.882004261f,0.88585788f,0.88972646f,0.893609941f,0.897508502f,0.901422083f,0.905350804f,0.909294724f,0.913253784f,0.917228162f,
0.921217918f,0.925222993f,0.929243445f,0.933279455f,0.937330961f,0.941398084f,0.945480764f,0.949579179f,0.95369339f,0.957823277f,0.961969078f,0.966130793f,
0.970308423f,0.974502087f,0.978711784f,0.982937574f,0.987179577f,0.991437733f,0.995712221f,1.00000298f};
static const float f_sin_lo[1025] = {
-0.989364266f,-0.991516829f,-0.993427336f,-0.995095313f,-0.99652034f,-0.997702122f,-0.998640299f,-0.999334693f,-0.999785125f,-0.999991477f,-0.999953628f,-0.999671757f,
-0.999145746f,-0.998375833f,-0.997362196f,-0.996105075f,-0.994604766f,-0.992861629f,-0.990876138f,-0.988648713f,-0.986179888f,-0.98347038f,-0.980520725f,-0.977331698f,
-0.973904073f,-0.970238686f,-0.966336429f,-0.962198257f,-0.957825124f,-0.953218222f,-0.948378623f,-0.943307459f,-0.938005984f,-0.932475507f,-0.926717401f,-0.920733094f,
-0.914523959f,-0.908091545f,-0.901437461f,-0.894563258f,-0.887470722f,-0.880161524f,-0.872637391f,-0.864900291f,-0.856951952f,-0.84879446f,-0.840429783f,-0.831859887f,
-0.823086858f,-0.814112961f,-0.804940283f,-0.795571089f,-0.786007643f,-0.776252329f,-0.766307533f,-0.756175637f,-0.745859146f,-0.735360563f,-0.724682391f,-0.713827372f,
-0.702798069f,-0.691597164f,-0.680227458f,-0.668691635f,-0.656992614f,-0.645133138f,-0.633116245f,-0.620944738f,-0.608621597f,-0.596149921f,-0.583532691f,-0.570773005f,
-0.557874024f,-0.544838786f,-0.53167057f,-0.518372536f,-0.50494796f,-0.491400063f,-0.477732241f,-0.463947803f,-0.450050086f,-0.436042488f,-0.421928436f,-0.407711387f,
-0.393394798f,-0.378982186f,-0.364477038f,-0.349882901f,-0.33520335f,-0.320441961f,-0.305602372f,-0.290688157f,-0.275702953f,-0.260650486f,-0.24553436f,-0.230358288f,
-0.215125993f,-0.199841172f,-0.184507564f,-0.16912891f,-0.153708965f,-0.138251513f,-0.122760296f,-0.107239112f,-0.0916917473f,-0.0761220008f,-0.0605336726f,-0.0449305661f,
-0.0293164942f,-0.0136952652f,0.00192930596f,0.017553404f,0.0331732184f,0.0487849265f,0.0643847287f,0.0799688101f,0.0955333635f,0.111074597f,0.126588702f,0.142071918f,
0.157520428f,0.172930494f,0.18829833f,0.20362021f,0.218892366f,0.234111071f,0.249272645f,0.264373332f,0.279409498f,0.294377446f,0.309273511f,0.324094087f,
0.338835537f,0.353494257f,0.368066669f,0.382549226f,0.396938384f,0.411230624f,0.42542249f,0.439510494f,0.453491181f,0.467361152f,0.48111704f,0.494755447f,
0.508273065f,0.521666646f,0.534932792f,0.548068404f,0.561070144f,0.573934972f,0.58665961f,0.599241078f,0.611676276f,0.623962045f,0.636095583f,0.648073733f,
0.659893751f,0.671552598f,0.683047533f,0.694375694f,0.705534339f,0.716520727f,0.727332175f,0.737966061f,0.748419821f,0.758690834f,0.768776596f,0.778674662f,
0.788382709f,0.797898173f,0.807218909f,0.816342592f,0.825266898f,0.833989799f,0.842509031f,0.850822628f,0.858928502f,0.866824627f,0.874509215f,0.88198024f,
0.889235914f,0.896274567f,0.903094351f,0.909693658f,0.916070938f,0.922224522f,0.928152919f,0.933854759f,0.939328611f,0.944573164f,0.949587107f,0.954369187f,
0.958918273f,0.963233232f,0.967313111f,0.971156776f,0.974763334f,0.97813195f,0.98126173f,0.984151959f,0.986801922f,0.989210963f,0.991378546f,0.993304074f,
0.994987071f,0.996427178f,0.99762404f,0.998577297f,0.999286771f,0.999752343f,0.999973774f,0.999951065f,0.999684274f,0.999173403f,0.998418629f,0.997420073f,
0.996178031f,0.994692743f,0.992964625f,0.990994096f,0.988781691f,0.986327827f,0.983633161f,0.980698347f,0.977524102f,0.974111259f,0.970460534f,0.96657294f,
0.962449312f,0.958090782f,0.953498304f,0.948673069f,0.943616211f,0.938328981f,0.932812631f,0.927068591f,0.921098232f,0.914902985f,0.90848434f,0.901843965f,
0.894983351f,0.887904286f,0.880608439f,0.873097599f,0.865373552f,0.857438326f,0.849293709f,0.840941787f,0.832384527f,0.823624074f,0.814662516f,0.805502057f,
0.796144962f,0.786593497f,0.776850045f,0.766916871f,0.756796479f,0.746491373f,0.736003935f,0.72533685f,0.714492738f,0.703474104f,0.69228375f,0.680924416f,
0.669398844f,0.657709837f,0.645860195f,0.633852959f,0.621690929f,0.609377146f,0.596914589f,0.58430624f,0.571555316f,0.558664858f,0.545637965f,0.532477856f,
0.519187748f,0.505770922f,0.492230624f,0.478570104f,0.464792788f,0.450901985f,0.436901093f,0.422793537f,0.408582777f,0.394272238f,0.379865468f,0.365365952f,
0.350777239f,0.336102873f,0.321346462f,0.306511581f,0.291601866f,0.276620984f,0.26157257f,0.246460274f,0.231287807f,0.21605888f,0.200777203f,0.185446516f,
0.170070544f,0.154653057f,0.139197811f,0.123708569f,0.108189136f,0.0926432833f,0.0770748109f,0.0614875257f,0.0458852239f,0.0302717183f,0.0146508217f,-0.000973653456f,
-0.0165978931f,-0.03221808f,-0.0478304029f,-0.0634310544f,-0.0790162161f,-0.0945820883f,-0.110124879f,-0.12564078f,-0.141126007f,-0.156576782f,-0.171989337f,-0.187359899f,
-0.20268473f,-0.217960075f,-0.233182207f,-0.248347417f,-0.263451993f,-0.278492242f,-0.293464541f,-0.308365166f,-0.32319051f,-0.337936968f,-0.352600902f,-0.367178768f,
-0.381666988f,-0.396062046f,-0.410360396f,-0.42455858f,-0.438653111f,-0.452640533f,-0.466517478f,-0.480280519f,-0.493926287f,-0.507451475f,-0.520852804f,-0.534126997f,
-0.547270775f,-0.560280919f,-0.573154271f,-0.58588773f,-0.598478138f,-0.610922456f,-0.623217583f,-0.635360599f,-0.647348523f,-0.659178376f,-0.670847297f,-0.682352483f,
-0.693691015f,-0.70486027f,-0.715857387f,-0.726679742f,-0.737324715f,-0.747789681f,-0.758072078f,-0.768169403f,-0.778079212f,-0.78779906f,-0.797326565f,-0.8066594f,
-0.815795302f,-0.824732065f,-0.833467484f,-0.841999412f,-0.850325763f,-0.858444571f,-0.86635375f,-0.874051452f,-0.881535769f,-0.888804913f,-0.895856977f,-0.902690411f,
-0.909303427f,-0.915694475f,-0.921861947f,-0.927804351f,-0.933520257f,-0.939008296f,-0.944267035f,-0.949295282f,-0.954091787f,-0.958655357f,-0.96298486f,-0.967079282f,
-0.97093761f,-0.97455889f,-0.977942228f,-0.98108685f,-0.983991921f,-0.986656845f,-0.989080787f,-0.99126333f,-0.993203878f,-0.994901896f,-0.996357083f,-0.997568965f,
-0.998537362f,-0.999261916f,-0.999742568f,-0.999979138f,-0.999971569f,-0.999719918f,-0.999224126f,-0.998484433f,-0.997501016f,-0.996273994f,-0.994803786f,-0.993090689f,
-0.99113518f,-0.988937676f,-0.986498773f,-0.983819008f,-0.980899036f,-0.977739632f,-0.974341512f,-0.970705509f,-0.966832578f,-0.962723553f,-0.958379507f,-0.953801513f,
-0.948990643f,-0.94394809f,-0.938675046f,-0.933172882f,-0.927442908f,-0.921486497f,-0.915305138f,-0.908900321f,-0.902273595f,-0.895426571f,-0.888360977f,-0.881078541f,
-0.873580933f,-0.865870059f,-0.857947826f,-0.849816144f,-0.841476977f,-0.832932413f,-0.824184418f,-0.815235317f,-0.806087136f,-0.796742141f,-0.787202656f,-0.777471006f,
-0.767549515f,-0.757440627f,-0.747146845f,-0.736670673f,-0.726014674f,-0.71518141f,-0.704173505f,-0.692993701f,-0.681644738f,-0.670129359f,-0.658450425f,-0.646610677f,
-0.634613097f,-0.622460544f,-0.610156059f,-0.597702622f,-0.585103273f,-0.572361052f,-0.559479117f,-0.546460629f,-0.533308685f,-0.520026565f,-0.506617427f,-0.493084699f,
-0.47943154f,-0.465661347f,-0.451777458f,-0.437783301f,-0.423682243f,-0.40947777f,-0.395173341f,-0.380772412f,-0.366278529f,-0.35169524f,-0.33702606f,-0.322274625f,
-0.307444513f,-0.292539328f,-0.277562737f,-0.262518406f,-0.247409955f,-0.232241124f,-0.217015579f,-0.201737061f,-0.186409295f,-0.17103602f,-0.155620992f,-0.140167966f,
-0.124680735f,-0.109163053f,-0.0936187282f,-0.0780515522f,-0.0624653175f,-0.0468638353f,-0.0312509127f,-0.0156303644f,-6.00000021e-06f,0.0156183643f,0.0312389135f,0.0468518361f,
0.0624533184f,0.0780395493f,0.0936067328f,0.109151058f,0.124668732f,0.140155971f,0.155608997f,0.171024024f,0.186397299f,0.201725066f,0.217003584f,0.232229114f,
0.247397959f,0.262506396f,0.277550757f,0.292527348f,0.307432503f,0.322262645f,0.337014079f,0.351683229f,0.366266519f,0.380760401f,0.395161331f,0.40946579f,
0.423670262f,0.437771291f,0.451765478f,0.465649337f,0.479419529f,0.493072689f,0.506605446f,0.520014524f,0.533296645f,0.546448588f,0.559467137f,0.572349072f,
0.585091293f,0.597690642f,0.610144079f,0.622448564f,0.634601057f,0.646598697f,0.658438385f,0.670117378f,0.681632757f,0.69298172f,0.704161525f,0.71516937f,
0.726002634f,0.736658692f,0.747134864f,0.757428646f,0.767537475f,0.777458966f,0.787190676f,0.796730161f,0.806075096f,0.815223277f,0.824172437f,0.832920372f,
0.841464996f,0.849804163f,0.857935846f,0.865858078f,0.873568952f,0.881066501f,0.888348997f,0.895414591f,0.902261615f,0.90888834f,0.915293157f,0.921474516f,
0.927430928f,0.933160901f,0.938663065f,0.94393605f,0.948978603f,0.953789473f,0.958367527f,0.962711573f,0.966820538f,0.970693529f,0.974329531f,0.977727652f,
0.980887055f,0.983807027f,0.986486793f,0.988925695f,0.991123199f,0.993078709f,0.994791806f,0.996262014f,0.997488976f,0.998472452f,0.999212146f,0.999707878f,
0.999959588f,0.999967158f,0.999730587f,0.999249935f,0.998525321f,0.997556984f,0.996345043f,0.994889915f,0.993191838f,0.991251349f,0.989068806f,0.986644804f,
0.98397994f,0.98107487f,0.977930248f,0.974546909f,0.97092557f,0.967067301f,0.962972879f,0.958643317f,0.954079807f,0.949283302f,0.944255054f,0.938996315f,
0.933508277f,0.92779237f,0.921849966f,0.915682435f,0.909291446f,0.90267843f,0.895844996f,0.888792872f,0.881523788f,0.874039471f,0.86634177f,0.858432591f,
0.850313783f,0.841987431f,0.833455503f,0.824720085f,0.815783322f,0.80664742f,0.797314525f,0.78778702f,0.778067172f,0.768157423f,0.758060098f,0.7477777f,
0.737312734f,0.726667762f,0.715845406f,0.70484823f,0.693679035f,0.682340443f,0.670835316f,0.659166396f,0.647336543f,0.635348618f,0.623205602f,0.610910475f,
0.598466158f,0.58587575f,0.57314229f,0.560268879f,0.547258735f,0.534114957f,0.520840824f,0.507439494f,0.493914306f,0.480268508f,0.466505468f,0.452628523f,
0.438641101f,0.42454657f,0.410348386f,0.396050036f,0.381654978f,0.367166758f,0.352588892f,0.337924957f,0.3231785f,0.308353156f,0.293452531f,0.278480262f,
0.263439983f,0.248335421f,0.233170211f,0.217948079f,0.202672735f,0.187347904f,0.171977341f,0.156564787f,0.141114011f,0.125628784f,0.110112876f,0.0945700929f,
0.0790042132f,0.0634190515f,0.0478184037f,0.0322060809f,0.0165858921f,0.000961653423f,-0.0146628218f,-0.0302837174f,-0.0458972231f,-0.0614995249f,-0.0770868137f,-0.0926552862f,
-0.108201131f,-0.123720571f,-0.139209807f,-0.154665053f,-0.170082539f,-0.185458511f,-0.200789213f,-0.21607089f,-0.231299818f,-0.246472269f,-0.26158455f,-0.276632994f,
-0.291613877f,-0.306523591f,-0.321358442f,-0.336114854f,-0.350789219f,-0.365377963f,-0.379877478f,-0.394284248f,-0.408594787f,-0.422805548f,-0.436913103f,-0.450913996f,
-0.464804798f,-0.478582114f,-0.492242604f,-0.505782902f,-0.519199789f,-0.532489836f,-0.545649946f,-0.558676839f,-0.571567297f,-0.58431828f,-0.59692657f,-0.609389126f,
-0.621702909f,-0.633864939f,-0.645872235f,-0.657721817f,-0.669410825f,-0.680936396f,-0.69229579f,-0.703486145f,-0.714504719f,-0.72534889f,-0.736015975f,-0.746503353f,
-0.756808519f,-0.766928852f,-0.776862025f,-0.786605537f,-0.796157002f,-0.805514097f,-0.814674497f,-0.823636055f,-0.832396507f,-0.840953767f,-0.849305689f,-0.857450306f,
-0.865385592f,-0.873109579f,-0.88062042f,-0.887916267f,-0.894995332f,-0.901855946f,-0.90849638f,-0.914914966f,-0.921110213f,-0.927080572f,-0.932824671f,-0.938340962f,
-0.943628192f,-0.94868505f,-0.953510284f,-0.958102763f,-0.962461352f,-0.966584921f,-0.970472574f,-0.97412324f,-0.977536142f,-0.980710328f,-0.983645141f,-0.986339808f,
-0.988793671f,-0.991006136f,-0.992976665f,-0.994704723f,-0.996190012f,-0.997432053f,-0.99843061f,-0.999185443f,-0.999696314f,-0.999963105f,-0.999985754f,-0.999764323f,
-0.999298811f,-0.998589277f,-0.99763602f,-0.996439159f,-0.994999051f,-0.993316054f,-0.991390526f,-0.989223003f,-0.986813962f,-0.98416394f,-0.981273711f,-0.97814393f,
-0.974775314f,-0.971168756f,-0.967325091f,-0.963245273f,-0.958930254f,-0.954381168f,-0.949599087f,-0.944585145f,-0.939340651f,-0.933866799f,-0.928164959f,-0.922236502f,
-0.916082919f,-0.909705698f,-0.903106391f,-0.896286547f,-0.889247954f,-0.881992221f,-0.874521196f,-0.866836667f,-0.858940482f,-0.850834608f,-0.842521071f,-0.83400178f,
-0.825278938f,-0.816354573f,-0.807230949f,-0.797910213f,-0.78839469f,-0.778686702f,-0.768788576f,-0.758702815f,-0.748431802f,-0.737978041f,-0.727344155f,-0.716532707f,
-0.705546319f,-0.694387674f,-0.683059514f,-0.671564579f,-0.659905732f,-0.648085773f,-0.636107564f,-0.623974085f,-0.611688256f,-0.599253118f,-0.58667165f,-0.573946953f,
-0.561082184f,-0.548080385f,-0.534944773f,-0.521678627f,-0.508285105f,-0.494767457f,-0.48112902f,-0.467373163f,-0.453503191f,-0.439522475f,-0.4254345f,-0.411242634f,
-0.396950394f,-0.382561207f,-0.368078649f,-0.353506237f,-0.338847518f,-0.324106067f,-0.309285522f,-0.294389427f,-0.279421508f,-0.264385343f,-0.24928464f,-0.234123081f,
-0.218904361f,-0.203632206f,-0.18831034f,-0.172942489f,-0.157532424f,-0.142083913f,-0.126600713f,-0.111086592f,-0.0955453664f,-0.0799808055f,-0.0643967316f,-0.0487969294f,
-0.0331852175f,-0.017565405f,-0.00194130593f,0.0136832651f,0.0293044951f,0.0449185669f,0.0605216734f,0.0761100054f,0.0916797519f,0.107227109f,0.122748293f,0.138239503f,
0.153696969f,0.169116914f,0.184495568f,0.199829161f,0.215113983f,0.230346292f,0.24552235f,0.260638475f,0.275690973f,0.290676147f,0.305590361f,0.320429981f,
0.335191339f,0.34987089f,0.364465028f,0.378970176f,0.393382788f,0.407699376f,0.421916425f,0.436030477f,0.450038075f,0.463935792f,0.477720261f,0.491388083f,
0.50493592f,0.518360496f,0.53165853f,0.544826806f,0.557861984f,0.570761025f,0.58352071f,0.596137941f,0.608609617f,0.620932698f,0.633104205f,0.645121157f,
0.656980574f,0.668679655f,0.680215418f,0.691585183f,0.702786088f,0.713815391f,0.72467041f,0.735348523f,0.745847106f,0.756163657f,0.766295552f,0.776240349f,
0.785995662f,0.795559108f,0.804928303f,0.814100981f,0.823074877f,0.831847847f,0.840417743f,0.84878248f,0.856939971f,0.864888251f,0.872625411f,0.880149484f,
0.887458742f,0.894551277f,0.901425421f,0.908079565f,0.914511919f,0.920721054f,0.92670542f,0.932463527f,0.937994003f,0.943295419f,0.948366582f,0.953206241f,
0.957813144f,0.962186217f,0.966324389f,0.970226645f,0.973892033f,0.977319658f,0.980508685f,0.98345834f,0.986167908f,0.988636672f,0.990864158f,0.992849648f,
0.994592786f,0.996093094f,0.997350216f,0.998363853f,0.999133766f,0.999659717f,0.999941647f,0.999979436f,0.999773145f,0.999322712f,0.998628318f,0.997690141f,
0.99650836f,0.995083332f,0.993415356f,0.991504848f,0.989352226f};
static const float f_sin_hi[1025] = {
-0.989352226f,-0.991504848f,-0.993415356f,-0.995083332f,-0.99650836f,-0.997690141f,-0.998628318f,-0.999322712f,-0.999773145f,-0.999979436f,-0.999941647f,-0.999659717f,
-0.999133766f,-0.998363853f,-0.997350216f,-0.996093094f,-0.994592786f,-0.992849648f,-0.990864158f,-0.988636672f,-0.986167908f,-0.98345834f,-0.980508685f,-0.977319658f,
-0.973892033f,-0.970226645f,-0.966324389f,-0.962186217f,-0.957813144f,-0.953206241f,-0.948366582f,-0.943295419f,-0.937994003f,-0.932463527f,-0.92670542f,-0.920721054f,
-0.914511919f,-0.908079565f,-0.901425421f,-0.894551277f,-0.887458742f,-0.880149484f,-0.872625411f,-0.864888251f,-0.856939971f,-0.84878248f,-0.840417743f,-0.831847847f,
-0.823074877f,-0.814100981f,-0.804928303f,-0.795559108f,-0.785995662f,-0.776240349f,-0.766295552f,-0.756163657f,-0.745847106f,-0.735348523f,-0.72467041f,-0.713815391f,
-0.702786088f,-0.691585183f,-0.680215418f,-0.668679655f,-0.656980574f,-0.645121157f,-0.633104205f,-0.620932698f,-0.608609617f,-0.596137941f,-0.58352071f,-0.570761025f,
-0.557861984f,-0.544826806f,-0.53165853f,-0.518360496f,-0.50493592f,-0.491388083f,-0.477720261f,-0.463935792f,-0.450038075f,-0.436030477f,-0.421916425f,-0.407699376f,
-0.393382788f,-0.378970176f,-0.364465028f,-0.34987089f,-0.335191339f,-0.320429981f,-0.305590361f,-0.290676147f,-0.275690973f,-0.260638475f,-0.24552235f,-0.230346292f,
-0.215113983f,-0.199829161f,-0.184495568f,-0.169116914f,-0.153696969f,-0.138239503f,-0.122748293f,-0.107227109f,-0.0916797519f,-0.0761100054f,-0.0605216734f,-0.0449185669f,
-0.0293044951f,-0.0136832651f,0.00194130593f,0.017565405f,0.0331852175f,0.0487969294f,0.0643967316f,0.0799808055f,0.0955453664f,0.111086592f,0.126600713f,0.142083913f,
0.157532424f,0.172942489f,0.18831034f,0.203632206f,0.218904361f,0.234123081f,0.24928464f,0.264385343f,0.279421508f,0.294389427f,0.309285522f,0.324106067f,
0.338847518f,0.353506237f,0.368078649f,0.382561207f,0.396950394f,0.411242634f,0.4254345f,0.439522475f,0.453503191f,0.467373163f,0.48112902f,0.494767457f,
0.508285105f,0.521678627f,0.534944773f,0.548080385f,0.561082184f,0.573946953f,0.58667165f,0.599253118f,0.611688256f,0.623974085f,0.636107564f,0.648085773f,
0.659905732f,0.671564579f,0.683059514f,0.694387674f,0.705546319f,0.716532707f,0.727344155f,0.737978041f,0.748431802f,0.758702815f,0.768788576f,0.778686702f,
0.78839469f,0.797910213f,0.807230949f,0.816354573f,0.825278938f,0.83400178f,0.842521071f,0.850834608f,0.858940482f,0.866836667f,0.874521196f,0.881992221f,
0.889247954f,0.896286547f,0.903106391f,0.909705698f,0.916082919f,0.922236502f,0.928164959f,0.933866799f,0.939340651f,0.944585145f,0.949599087f,0.954381168f,
0.958930254f,0.963245273f,0.967325091f,0.971168756f,0.974775314f,0.97814393f,0.981273711f,0.98416394f,0.986813962f,0.989223003f,0.991390526f,0.993316054f,
0.994999051f,0.996439159f,0.99763602f,0.998589277f,0.999298811f,0.999764323f,0.999985754f,0.999963105f,0.999696314f,0.999185443f,0.99843061f,0.997432053f,
0.996190012f,0.994704723f,0.992976665f,0.991006136f,0.988793671f,0.986339808f,0.983645141f,0.980710328f,0.977536142f,0.97412324f,0.970472574f,0.966584921f,
0.962461352f,0.958102763f,0.953510284f,0.94868505f,0.943628192f,0.938340962f,0.932824671f,0.927080572f,0.921110213f,0.914914966f,0.90849638f,0.901855946f,
0.894995332f,0.887916267f,0.88062042f,0.873109579f,0.865385592f,0.857450306f,0.849305689f,0.840953767f,0.832396507f,0.823636055f,0.814674497f,0.805514097f,
0.796157002f,0.786605537f,0.776862025f,0.766928852f,0.756808519f,0.746503353f,0.736015975f,0.72534889f,0.714504719f,0.703486145f,0.69229579f,0.680936396f,
0.669410825f,0.657721817f,0.645872235f,0.633864939f,0.621702909f,0.609389126f,0.59692657f,0.58431828f,0.571567297f,0.558676839f,0.545649946f,0.532489836f,
0.519199789f,0.505782902f,0.492242604f,0.478582114f,0.464804798f,0.450913996f,0.436913103f,0.422805548f,0.408594787f,0.394284248f,0.379877478f,0.365377963f,
0.350789219f,0.336114854f,0.321358442f,0.306523591f,0.291613877f,0.276632994f,0.26158455f,0.246472269f,0.231299818f,0.21607089f,0.200789213f,0.185458511f,
0.170082539f,0.154665053f,0.139209807f,0.123720571f,0.108201131f,0.0926552862f,0.0770868137f,0.0614995249f,0.0458972231f,0.0302837174f,0.0146628218f,-0.000961653423f,
-0.0165858921f,-0.0322060809f,-0.0478184037f,-0.0634190515f,-0.0790042132f,-0.0945700929f,-0.110112876f,-0.125628784f,-0.141114011f,-0.156564787f,-0.171977341f,-0.187347904f,
-0.202672735f,-0.217948079f,-0.233170211f,-0.248335421f,-0.263439983f,-0.278480262f,-0.293452531f,-0.308353156f,-0.3231785f,-0.337924957f,-0.352588892f,-0.367166758f,
-0.381654978f,-0.396050036f,-0.410348386f,-0.42454657f,-0.438641101f,-0.452628523f,-0.466505468f,-0.480268508f,-0.493914306f,-0.507439494f,-0.520840824f,-0.534114957f,
-0.547258735f,-0.560268879f,-0.57314229f,-0.58587575f,-0.598466158f,-0.610910475f,-0.623205602f,-0.635348618f,-0.647336543f,-0.659166396f,-0.670835316f,-0.682340443f,
-0.693679035f,-0.70484823f,-0.715845406f,-0.726667762f,-0.737312734f,-0.7477777f,-0.758060098f,-0.768157423f,-0.778067172f,-0.78778702f,-0.797314525f,-0.80664742f,
-0.815783322f,-0.824720085f,-0.833455503f,-0.841987431f,-0.850313783f,-0.858432591f,-0.86634177f,-0.874039471f,-0.881523788f,-0.888792872f,-0.895844996f,-0.90267843f,
-0.909291446f,-0.915682435f,-0.921849966f,-0.92779237f,-0.933508277f,-0.938996315f,-0.944255054f,-0.949283302f,-0.954079807f,-0.958643317f,-0.962972879f,-0.967067301f,
-0.97092557f,-0.974546909f,-0.977930248f,-0.98107487f,-0.98397994f,-0.986644804f,-0.989068806f,-0.991251349f,-0.993191838f,-0.994889915f,-0.996345043f,-0.997556984f,
-0.998525321f,-0.999249935f,-0.999730587f,-0.999967158f,-0.999959588f,-0.999707878f,-0.999212146f,-0.998472452f,-0.997488976f,-0.996262014f,-0.994791806f,-0.993078709f,
-0.991123199f,-0.988925695f,-0.986486793f,-0.983807027f,-0.980887055f,-0.977727652f,-0.974329531f,-0.970693529f,-0.966820538f,-0.962711573f,-0.958367527f,-0.953789473f,
-0.948978603f,-0.94393605f,-0.938663065f,-0.933160901f,-0.927430928f,-0.921474516f,-0.915293157f,-0.90888834f,-0.902261615f,-0.895414591f,-0.888348997f,-0.881066501f,
-0.873568952f,-0.865858078f,-0.857935846f,-0.849804163f,-0.841464996f,-0.832920372f,-0.824172437f,-0.815223277f,-0.806075096f,-0.796730161f,-0.787190676f,-0.777458966f,
-0.767537475f,-0.757428646f,-0.747134864f,-0.736658692f,-0.726002634f,-0.71516937f,-0.704161525f,-0.69298172f,-0.681632757f,-0.670117378f,-0.658438385f,-0.646598697f,
-0.634601057f,-0.622448564f,-0.610144079f,-0.597690642f,-0.585091293f,-0.572349072f,-0.559467137f,-0.546448588f,-0.533296645f,-0.520014524f,-0.506605446f,-0.493072689f,
-0.479419529f,-0.465649337f,-0.451765478f,-0.437771291f,-0.423670262f,-0.40946579f,-0.395161331f,-0.380760401f,-0.366266519f,-0.351683229f,-0.337014079f,-0.322262645f,
-0.307432503f,-0.292527348f,-0.277550757f,-0.262506396f,-0.247397959f,-0.232229114f,-0.217003584f,-0.201725066f,-0.186397299f,-0.171024024f,-0.155608997f,-0.140155971f,
-0.124668732f,-0.109151058f,-0.0936067328f,-0.0780395493f,-0.0624533184f,-0.0468518361f,-0.0312389135f,-0.0156183643f,6.00000021e-06f,0.0156303644f,0.0312509127f,0.0468638353f,
0.0624653175f,0.0780515522f,0.0936187282f,0.109163053f,0.124680735f,0.140167966f,0.155620992f,0.17103602f,0.186409295f,0.201737061f,0.217015579f,0.232241124f,
0.247409955f,0.262518406f,0.277562737f,0.292539328f,0.307444513f,0.322274625f,0.33702606f,0.35169524f,0.366278529f,0.380772412f,0.395173341f,0.40947777f,
0.423682243f,0.437783301f,0.451777458f,0.465661347f,0.47943154f,0.493084699f,0.506617427f,0.520026565f,0.533308685f,0.546460629f,0.559479117f,0.572361052f,
0.585103273f,0.597702622f,0.610156059f,0.622460544f,0.634613097f,0.646610677f,0.658450425f,0.670129359f,0.681644738f,0.692993701f,0.704173505f,0.71518141f,
0.726014674f,0.736670673f,0.747146845f,0.757440627f,0.767549515f,0.777471006f,0.787202656f,0.796742141f,0.806087136f,0.815235317f,0.824184418f,0.832932413f,
0.841476977f,0.849816144f,0.857947826f,0.865870059f,0.873580933f,0.881078541f,0.888360977f,0.895426571f,0.902273595f,0.908900321f,0.915305138f,0.921486497f,
0.927442908f,0.933172882f,0.938675046f,0.94394809f,0.948990643f,0.953801513f,0.958379507f,0.962723553f,0.966832578f,0.970705509f,0.974341512f,0.977739632f,
0.980899036f,0.983819008f,0.986498773f,0.988937676f,0.99113518f,0.993090689f,0.994803786f,0.996273994f,0.997501016f,0.998484433f,0.999224126f,0.999719918f,
0.999971569f,0.999979138f,0.999742568f,0.999261916f,0.998537362f,0.997568965f,0.996357083f,0.994901896f,0.993203878f,0.99126333f,0.989080787f,0.986656845f,
0.983991921f,0.98108685f,0.977942228f,0.97455889f,0.97093761f,0.967079282f,0.96298486f,0.958655357f,0.954091787f,0.949295282f,0.944267035f,0.939008296f,
0.933520257f,0.927804351f,0.921861947f,0.915694475f,0.909303427f,0.902690411f,0.895856977f,0.888804913f,0.881535769f,0.874051452f,0.86635375f,0.858444571f,
0.850325763f,0.841999412f,0.833467484f,0.824732065f,0.815795302f,0.8066594f,0.797326565f,0.78779906f,0.778079212f,0.768169403f,0.758072078f,0.747789681f,
0.737324715f,0.726679742f,0.715857387f,0.70486027f,0.693691015f,0.682352483f,0.670847297f,0.659178376f,0.647348523f,0.635360599f,0.623217583f,0.610922456f,
0.598478138f,0.58588773f,0.573154271f,0.560280919f,0.547270775f,0.534126997f,0.520852804f,0.507451475f,0.493926287f,0.480280519f,0.466517478f,0.452640533f,
0.438653111f,0.42455858f,0.410360396f,0.396062046f,0.381666988f,0.367178768f,0.352600902f,0.337936968f,0.32319051f,0.308365166f,0.293464541f,0.278492242f,
0.263451993f,0.248347417f,0.233182207f,0.217960075f,0.20268473f,0.187359899f,0.171989337f,0.156576782f,0.141126007f,0.12564078f,0.110124879f,0.0945820883f,
0.0790162161f,0.0634310544f,0.0478304029f,0.03221808f,0.0165978931f,0.000973653456f,-0.0146508217f,-0.0302717183f,-0.0458852239f,-0.0614875257f,-0.0770748109f,-0.0926432833f,
-0.108189136f,-0.123708569f,-0.139197811f,-0.154653057f,-0.170070544f,-0.185446516f,-0.200777203f,-0.21605888f,-0.231287807f,-0.246460274f,-0.26157257f,-0.276620984f,
-0.291601866f,-0.306511581f,-0.321346462f,-0.336102873f,-0.350777239f,-0.365365952f,-0.379865468f,-0.394272238f,-0.408582777f,-0.422793537f,-0.436901093f,-0.450901985f,
-0.464792788f,-0.478570104f,-0.492230624f,-0.505770922f,-0.519187748f,-0.532477856f,-0.545637965f,-0.558664858f,-0.571555316f,-0.58430624f,-0.596914589f,-0.609377146f,
-0.621690929f,-0.633852959f,-0.645860195f,-0.657709837f,-0.669398844f,-0.680924416f,-0.69228375f,-0.703474104f,-0.714492738f,-0.72533685f,-0.736003935f,-0.746491373f,
-0.756796479f,-0.766916871f,-0.776850045f,-0.786593497f,-0.796144962f,-0.805502057f,-0.814662516f,-0.823624074f,-0.832384527f,-0.840941787f,-0.849293709f,-0.857438326f,
-0.865373552f,-0.873097599f,-0.880608439f,-0.887904286f,-0.894983351f,-0.901843965f,-0.90848434f,-0.914902985f,-0.921098232f,-0.927068591f,-0.932812631f,-0.938328981f,
-0.943616211f,-0.948673069f,-0.953498304f,-0.958090782f,-0.962449312f,-0.96657294f,-0.970460534f,-0.974111259f,-0.977524102f,-0.980698347f,-0.983633161f,-0.986327827f,
-0.988781691f,-0.990994096f,-0.992964625f,-0.994692743f,-0.996178031f,-0.997420073f,-0.998418629f,-0.999173403f,-0.999684274f,-0.999951065f,-0.999973774f,-0.999752343f,
-0.999286771f,-0.998577297f,-0.99762404f,-0.996427178f,-0.994987071f,-0.993304074f,-0.991378546f,-0.989210963f,-0.986801922f,-0.984151959f,-0.98126173f,-0.97813195f,
-0.974763334f,-0.971156776f,-0.967313111f,-0.963233232f,-0.958918273f,-0.954369187f,-0.949587107f,-0.944573164f,-0.939328611f,-0.933854759f,-0.928152919f,-0.922224522f,
-0.916070938f,-0.909693658f,-0.903094351f,-0.896274567f,-0.889235914f,-0.88198024f,-0.874509215f,-0.866824627f,-0.858928502f,-0.850822628f,-0.842509031f,-0.833989799f,
-0.825266898f,-0.816342592f,-0.807218909f,-0.797898173f,-0.788382709f,-0.778674662f,-0.768776596f,-0.758690834f,-0.748419821f,-0.737966061f,-0.727332175f,-0.716520727f,
-0.705534339f,-0.694375694f,-0.683047533f,-0.671552598f,-0.659893751f,-0.648073733f,-0.636095583f,-0.623962045f,-0.611676276f,-0.599241078f,-0.58665961f,-0.573934972f,
-0.561070144f,-0.548068404f,-0.534932792f,-0.521666646f,-0.508273065f,-0.494755447f,-0.48111704f,-0.467361152f,-0.453491181f,-0.439510494f,-0.42542249f,-0.411230624f,
-0.396938384f,-0.382549226f,-0.368066669f,-0.353494257f,-0.338835537f,-0.324094087f,-0.309273511f,-0.294377446f,-0.279409498f,-0.264373332f,-0.249272645f,-0.234111071f,
-0.218892366f,-0.20362021f,-0.18829833f,-0.172930494f,-0.157520428f,-0.142071918f,-0.126588702f,-0.111074597f,-0.0955333635f,-0.0799688101f,-0.0643847287f,-0.0487849265f,
-0.0331732184f,-0.017553404f,-0.00192930596f,0.0136952652f,0.0293164942f,0.0449305661f,0.0605336726f,0.0761220008f,0.0916917473f,0.107239112f,0.122760296f,0.138251513f,
0.153708965f,0.16912891f,0.184507564f,0.199841172f,0.215125993f,0.230358288f,0.24553436f,0.260650486f,0.275702953f,0.290688157f,0.305602372f,0.320441961f,
0.33520335f,0.349882901f,0.364477038f,0.378982186f,0.393394798f,0.407711387f,0.421928436f,0.436042488f,0.450050086f,0.463947803f,0.477732241f,0.491400063f,
0.50494796f,0.518372536f,0.53167057f,0.544838786f,0.557874024f,0.570773005f,0.583532691f,0.596149921f,0.608621597f,0.620944738f,0.633116245f,0.645133138f,
0.656992614f,0.668691635f,0.680227458f,0.691597164f,0.702798069f,0.713827372f,0.724682391f,0.735360563f,0.745859146f,0.756175637f,0.766307533f,0.776252329f,
0.786007643f,0.795571089f,0.804940283f,0.814112961f,0.823086858f,0.831859887f,0.840429783f,0.84879446f,0.856951952f,0.864900291f,0.872637391f,0.880161524f,
0.887470722f,0.894563258f,0.901437461f,0.908091545f,0.914523959f,0.920733094f,0.926717401f,0.932475507f,0.938005984f,0.943307459f,0.948378623f,0.953218222f,
0.957825124f,0.962198257f,0.966336429f,0.970238686f,0.973904073f,0.977331698f,0.980520725f,0.98347038f,0.986179888f,0.988648713f,0.990876138f,0.992861629f,
0.994604766f,0.996105075f,0.997362196f,0.998375833f,0.999145746f,0.999671757f,0.999953628f,0.999991477f,0.999785125f,0.999334693f,0.998640299f,0.997702122f,
0.99652034f,0.995095313f,0.993427336f,0.991516829f,0.989364266f};
static const float f_cos_lo[1025] = {
-0.145506039f,-0.130030185f,-0.114522584f,-0.098987028f,-0.0834273025f,-0.0678472221f,-0.0522505715f,-0.0366411656f,-0.021022819f,-0.00539933983f,0.0102254553f,0.0258477535f,
0.0414637402f,0.0570695996f,0.0726615265f,0.0882357135f,0.103788354f,0.119315661f,0.13481383f,0.15027909f,0.165707663f,0.181095779f,0.196439669f,0.211735606f,
0.226979852f,0.24216868f,0.25729838f,0.272365272f,0.287365675f,0.302295923f,0.317152351f,0.331931353f,0.346629322f,0.361242652f,0.375767797f,0.390201211f,
0.404539347f,0.418778747f,0.432915866f,0.446947306f,0.46086964f,0.47467947f,0.488373399f,0.501948059f,0.515400231f,0.528726578f,0.541923821f,0.554988742f,
0.567918181f,0.580708981f,0.59335798f,0.605862141f,0.618218362f,0.630423665f,0.642475069f,0.654369652f,0.666104436f,0.677676618f,0.689083338f,0.700321794f,
0.711389363f,0.722283185f,0.733000696f,0.743539214f,0.753896236f,0.7640692f,0.77405566f,0.783853114f,0.793459177f,0.802871585f,0.812087953f,0.821106076f,
0.829923689f,0.838538706f,0.846949041f,0.855152547f,0.863147318f,0.870931327f,0.878502727f,0.885859668f,0.893000364f,0.899922967f,0.906625926f,0.913107514f,
0.919366181f,0.925400436f,0.93120873f,0.936789691f,0.94214195f,0.947264194f,0.952155173f,0.956813693f,0.961238623f,0.965428829f,0.969383419f,0.973101318f,
0.976581633f,0.97982353f,0.982826233f,0.985588968f,0.988111079f,0.99039197f,0.992431104f,0.994227886f,0.995782018f,0.997092962f,0.998160541f,0.998984396f,
0.99956435f,0.999900281f,0.999992132f,0.999839842f,0.999443412f,0.99880302f,0.997918785f,0.996790886f,0.995419681f,0.993805408f,0.991948545f,0.989849448f,
0.987508774f,0.984926999f,0.982104719f,0.979042709f,0.975741684f,0.97220242f,0.96842581f,0.964412749f,0.960164309f,0.955681384f,0.950965166f,0.946016788f,
0.940837443f,0.935428441f,0.929791033f,0.923926651f,0.917836666f,0.911522627f,0.904986024f,0.898228526f,0.891251683f,0.884057343f,0.876647055f,0.869022846f,
0.861186445f,0.853139758f,0.844884813f,0.836423576f,0.827758193f,0.818890691f,0.809823275f,0.80055815f,0.791097522f,0.781443834f,0.771599352f,0.76156646f,
0.751347661f,0.740945458f,0.730362296f,0.719600916f,0.708663762f,0.697553635f,0.686273217f,0.674825251f,0.663212538f,0.651437879f,0.639504254f,0.627414405f,
0.615171432f,0.602778256f,0.590237975f,0.577553511f,0.564728081f,0.551764786f,0.538666785f,0.525437295f,0.512079477f,0.498596668f,0.484992117f,0.471269161f,
0.457431167f,0.443481505f,0.429423541f,0.415260762f,0.400996596f,0.386634529f,0.372178048f,0.35763073f,0.342996091f,0.328277707f,0.313479185f,0.298604131f,
0.28365618f,0.268638968f,0.253556192f,0.238411486f,0.223208576f,0.207951188f,0.192643017f,0.177287817f,0.16188933f,0.146451324f,0.130977556f,0.115471818f,
0.0999378785f,0.0843795463f,0.0688006133f,0.0532048792f,0.0375961512f,0.0219782479f,0.00635497691f,-0.00926984753f,-0.0248924103f,-0.0405088998f,-0.0561154969f,-0.0717083961f,
-0.0872837901f,-0.102837883f,-0.118366867f,-0.133866951f,-0.149334356f,-0.164765313f,-0.180156037f,-0.195502788f,-0.210801795f,-0.226049349f,-0.241241723f,-0.256375194f,
-0.271446079f,-0.286450714f,-0.301385403f,-0.31624651f,-0.331030399f,-0.345733494f,-0.360352188f,-0.374882907f,-0.389322072f,-0.403666228f,-0.417911828f,-0.432055384f,
-0.4460935f,-0.460022688f,-0.473839551f,-0.487540752f,-0.501122952f,-0.514582753f,-0.527916968f,-0.541122317f,-0.554195523f,-0.567133427f,-0.579932928f,-0.592590809f,
-0.605104029f,-0.61746949f,-0.629684269f,-0.641745269f,-0.653649628f,-0.665394366f,-0.67697674f,-0.688393772f,-0.699642777f,-0.710720956f,-0.721625626f,-0.732354105f,
-0.742903829f,-0.753272176f,-0.763456583f,-0.773454666f,-0.783263922f,-0.792881906f,-0.802306354f,-0.811534882f,-0.820565343f,-0.829395473f,-0.838023126f,-0.846446157f,
-0.854662538f,-0.862670302f,-0.870467424f,-0.878052056f,-0.885422349f,-0.892576456f,-0.899512649f,-0.906229258f,-0.912724614f,-0.918997109f,-0.925045252f,-0.930867612f,
-0.9364627f,-0.941829145f,-0.946965635f,-0.951870978f,-0.956543922f,-0.960983396f,-0.965188205f,-0.969157398f,-0.97288996f,-0.976384997f,-0.979641676f,-0.982659221f,
-0.985436857f,-0.987973928f,-0.99026978f,-0.992323816f,-0.994135678f,-0.99570483f,-0.997030854f,-0.998113453f,-0.998952448f,-0.999547541f,-0.999898612f,-1.00000548f,
-0.999868333f,-0.999487042f,-0.99886173f,-0.997992575f,-0.996879816f,-0.995523632f,-0.993924439f,-0.992082536f,-0.989998519f,-0.987672746f,-0.985105872f,-0.982298493f,
-0.979251266f,-0.975965023f,-0.972440481f,-0.968678594f,-0.964680135f,-0.960446239f,-0.955977798f,-0.951276004f,-0.946341991f,-0.941176891f,-0.935782075f,-0.930158734f,
-0.92430836f,-0.918232322f,-0.911932111f,-0.905409276f,-0.898665428f,-0.891702116f,-0.884521127f,-0.87712425f,-0.869513154f,-0.861689866f,-0.853656173f,-0.845414042f,
-0.836965561f,-0.828312695f,-0.81945765f,-0.810402572f,-0.801149607f,-0.791701078f,-0.782059252f,-0.772226512f,-0.762205243f,-0.751997888f,-0.741606951f,-0.731034935f,
-0.720284462f,-0.709358156f,-0.698258698f,-0.686988711f,-0.675551057f,-0.663948417f,-0.652183771f,-0.640259862f,-0.62817961f,-0.615946054f,-0.603562117f,-0.591030777f,
-0.578355193f,-0.565538406f,-0.552583575f,-0.539493799f,-0.526272357f,-0.512922406f,-0.499447227f,-0.485850126f,-0.472134411f,-0.458303452f,-0.444360584f,-0.430309236f,
-0.416152835f,-0.401894838f,-0.387538731f,-0.373088032f,-0.358546227f,-0.343916893f,-0.329203576f,-0.314409941f,-0.299539506f,-0.284595966f,-0.269582927f,-0.254504085f,
-0.239363119f,-0.224163711f,-0.208909586f,-0.193604454f,-0.178252056f,-0.162856147f,-0.147420466f,-0.131948814f,-0.116444938f,-0.100912645f,-0.0853557065f,-0.0697779357f,
-0.0541831367f,-0.0385751054f,-0.0229576584f,-0.00733460765f,0.00829023123f,0.0239130463f,0.0395300202f,0.0551373437f,0.0707312003f,0.0863077939f,0.10186331f,0.117393956f,
0.132895947f,0.148365483f,0.163798809f,0.179192126f,0.194541708f,0.209843785f,0.225094646f,0.240290537f,0.255427778f,0.270502627f,0.285511464f,0.300450593f,
0.315316349f,0.330105156f,0.344813347f,0.359437376f,0.373973638f,0.388418585f,0.402768731f,0.41702053f,0.431170523f,0.445215255f,0.459151268f,0.472975194f,
0.486683667f,0.500273287f,0.513740838f,0.52708292f,0.540296316f,0.553377807f,0.566324174f,0.579132318f,0.59179908f,0.604321361f,0.61669606f,0.628920257f,
0.640990853f,0.652904987f,0.664659739f,0.676252186f,0.687679589f,0.698939025f,0.710027874f,0.720943391f,0.731682897f,0.742243707f,0.752623379f,0.76281929f,
0.772828937f,0.782649934f,0.79227984f,0.801716328f,0.810957134f,0.819999874f,0.828842461f,0.83748275f,0.845918477f,0.854147732f,0.862168491f,0.869978726f,
0.87757659f,0.884960175f,0.892127693f,0.899077415f,0.905807674f,0.912316799f,0.918603182f,0.924665272f,0.93050164f,0.936110795f,0.941491485f,0.94664228f,
0.951561928f,0.956249297f,0.960703254f,0.964922607f,0.968906403f,0.972653687f,0.976163447f,0.979434967f,0.982467294f,0.985259831f,0.987811804f,0.990122616f,
0.992191672f,0.994018495f,0.995602667f,0.996943772f,0.998041511f,0.998895586f,0.999505758f,0.99987191f,0.99999398f,0.99987191f,0.999505758f,0.998895586f,
0.998041511f,0.996943772f,0.995602667f,0.994018495f,0.992191672f,0.990122616f,0.987811804f,0.985259831f,0.982467294f,0.979434967f,0.976163447f,0.972653687f,
0.968906403f,0.964922607f,0.960703254f,0.956249297f,0.951561928f,0.94664228f,0.941491485f,0.936110795f,0.93050164f,0.924665272f,0.918603182f,0.912316799f,
0.905807674f,0.899077415f,0.892127693f,0.884960175f,0.87757659f,0.869978726f,0.862168491f,0.854147732f,0.845918477f,0.83748275f,0.828842461f,0.819999874f,
0.810957134f,0.801716328f,0.79227984f,0.782649934f,0.772828937f,0.76281929f,0.752623379f,0.742243707f,0.731682897f,0.720943391f,0.710027874f,0.698939025f,
0.687679589f,0.676252186f,0.664659739f,0.652904987f,0.640990853f,0.628920257f,0.61669606f,0.604321361f,0.59179908f,0.579132318f,0.566324174f,0.553377807f,
0.540296316f,0.52708292f,0.513740838f,0.500273287f,0.486683667f,0.472975194f,0.459151268f,0.445215255f,0.431170523f,0.41702053f,0.402768731f,0.388418585f,
0.373973638f,0.359437376f,0.344813347f,0.330105156f,0.315316349f,0.300450593f,0.285511464f,0.270502627f,0.255427778f,0.240290537f,0.225094646f,0.209843785f,
0.194541708f,0.179192126f,0.163798809f,0.148365483f,0.132895947f,0.117393956f,0.10186331f,0.0863077939f,0.0707312003f,0.0551373437f,0.0395300202f,0.0239130463f,
0.00829023123f,-0.00733460765f,-0.0229576584f,-0.0385751054f,-0.0541831367f,-0.0697779357f,-0.0853557065f,-0.100912645f,-0.116444938f,-0.131948814f,-0.147420466f,-0.162856147f,
-0.178252056f,-0.193604454f,-0.208909586f,-0.224163711f,-0.239363119f,-0.254504085f,-0.269582927f,-0.284595966f,-0.299539506f,-0.314409941f,-0.329203576f,-0.343916893f,
-0.358546227f,-0.373088032f,-0.387538731f,-0.401894838f,-0.416152835f,-0.430309236f,-0.444360584f,-0.458303452f,-0.472134411f,-0.485850126f,-0.499447227f,-0.512922406f,
-0.526272357f,-0.539493799f,-0.552583575f,-0.565538406f,-0.578355193f,-0.591030777f,-0.603562117f,-0.615946054f,-0.62817961f,-0.640259862f,-0.652183771f,-0.663948417f,
-0.675551057f,-0.686988711f,-0.698258698f,-0.709358156f,-0.720284462f,-0.731034935f,-0.741606951f,-0.751997888f,-0.762205243f,-0.772226512f,-0.782059252f,-0.791701078f,
-0.801149607f,-0.810402572f,-0.81945765f,-0.828312695f,-0.836965561f,-0.845414042f,-0.853656173f,-0.861689866f,-0.869513154f,-0.87712425f,-0.884521127f,-0.891702116f,
-0.898665428f,-0.905409276f,-0.911932111f,-0.918232322f,-0.92430836f,-0.930158734f,-0.935782075f,-0.941176891f,-0.946341991f,-0.951276004f,-0.955977798f,-0.960446239f,
-0.964680135f,-0.968678594f,-0.972440481f,-0.975965023f,-0.979251266f,-0.982298493f,-0.985105872f,-0.987672746f,-0.989998519f,-0.992082536f,-0.993924439f,-0.995523632f,
-0.996879816f,-0.997992575f,-0.99886173f,-0.999487042f,-0.999868333f,-1.00000548f,-0.999898612f,-0.999547541f,-0.998952448f,-0.998113453f,-0.997030854f,-0.99570483f,
-0.994135678f,-0.992323816f,-0.99026978f,-0.987973928f,-0.985436857f,-0.982659221f,-0.979641676f,-0.976384997f,-0.97288996f,-0.969157398f,-0.965188205f,-0.960983396f,
-0.956543922f,-0.951870978f,-0.946965635f,-0.941829145f,-0.9364627f,-0.930867612f,-0.925045252f,-0.918997109f,-0.912724614f,-0.906229258f,-0.899512649f,-0.892576456f,
-0.885422349f,-0.878052056f,-0.870467424f,-0.862670302f,-0.854662538f,-0.846446157f,-0.838023126f,-0.829395473f,-0.820565343f,-0.811534882f,-0.802306354f,-0.792881906f,
-0.783263922f,-0.773454666f,-0.763456583f,-0.753272176f,-0.742903829f,-0.732354105f,-0.721625626f,-0.710720956f,-0.699642777f,-0.688393772f,-0.67697674f,-0.665394366f,
-0.653649628f,-0.641745269f,-0.629684269f,-0.61746949f,-0.605104029f,-0.592590809f,-0.579932928f,-0.567133427f,-0.554195523f,-0.541122317f,-0.527916968f,-0.514582753f,
-0.501122952f,-0.487540752f,-0.473839551f,-0.460022688f,-0.4460935f,-0.432055384f,-0.417911828f,-0.403666228f,-0.389322072f,-0.374882907f,-0.360352188f,-0.345733494f,
-0.331030399f,-0.31624651f,-0.301385403f,-0.286450714f,-0.271446079f,-0.256375194f,-0.241241723f,-0.226049349f,-0.210801795f,-0.195502788f,-0.180156037f,-0.164765313f,
-0.149334356f,-0.133866951f,-0.118366867f,-0.102837883f,-0.0872837901f,-0.0717083961f,-0.0561154969f,-0.0405088998f,-0.0248924103f,-0.00926984753f,0.00635497691f,0.0219782479f,
0.0375961512f,0.0532048792f,0.0688006133f,0.0843795463f,0.0999378785f,0.115471818f,0.130977556f,0.146451324f,0.16188933f,0.177287817f,0.192643017f,0.207951188f,
0.223208576f,0.238411486f,0.253556192f,0.268638968f,0.28365618f,0.298604131f,0.313479185f,0.328277707f,0.342996091f,0.35763073f,0.372178048f,0.386634529f,
0.400996596f,0.415260762f,0.429423541f,0.443481505f,0.457431167f,0.471269161f,0.484992117f,0.498596668f,0.512079477f,0.525437295f,0.538666785f,0.551764786f,
0.564728081f,0.577553511f,0.590237975f,0.602778256f,0.615171432f,0.627414405f,0.639504254f,0.651437879f,0.663212538f,0.674825251f,0.686273217f,0.697553635f,
0.708663762f,0.719600916f,0.730362296f,0.740945458f,0.751347661f,0.76156646f,0.771599352f,0.781443834f,0.791097522f,0.80055815f,0.809823275f,0.818890691f,
0.827758193f,0.836423576f,0.844884813f,0.853139758f,0.861186445f,0.869022846f,0.876647055f,0.884057343f,0.891251683f,0.898228526f,0.904986024f,0.911522627f,
0.917836666f,0.923926651f,0.929791033f,0.935428441f,0.940837443f,0.946016788f,0.950965166f,0.955681384f,0.960164309f,0.964412749f,0.96842581f,0.97220242f,
0.975741684f,0.979042709f,0.982104719f,0.984926999f,0.987508774f,0.989849448f,0.991948545f,0.993805408f,0.995419681f,0.996790886f,0.997918785f,0.99880302f,
0.999443412f,0.999839842f,0.999992132f,0.999900281f,0.99956435f,0.998984396f,0.998160541f,0.997092962f,0.995782018f,0.994227886f,0.992431104f,0.99039197f,
0.988111079f,0.985588968f,0.982826233f,0.97982353f,0.976581633f,0.973101318f,0.969383419f,0.965428829f,0.961238623f,0.956813693f,0.952155173f,0.947264194f,
0.94214195f,0.936789691f,0.93120873f,0.925400436f,0.919366181f,0.913107514f,0.906625926f,0.899922967f,0.893000364f,0.885859668f,0.878502727f,0.870931327f,
0.863147318f,0.855152547f,0.846949041f,0.838538706f,0.829923689f,0.821106076f,0.812087953f,0.802871585f,0.793459177f,0.783853114f,0.77405566f,0.7640692f,
0.753896236f,0.743539214f,0.733000696f,0.722283185f,0.711389363f,0.700321794f,0.689083338f,0.677676618f,0.666104436f,0.654369652f,0.642475069f,0.630423665f,
0.618218362f,0.605862141f,0.59335798f,0.580708981f,0.567918181f,0.554988742f,0.541923821f,0.528726578f,0.515400231f,0.501948059f,0.488373399f,0.47467947f,
0.46086964f,0.446947306f,0.432915866f,0.418778747f,0.404539347f,0.390201211f,0.375767797f,0.361242652f,0.346629322f,0.331931353f,0.317152351f,0.302295923f,
0.287365675f,0.272365272f,0.25729838f,0.24216868f,0.226979852f,0.211735606f,0.196439669f,0.181095779f,0.165707663f,0.15027909f,0.13481383f,0.119315661f,
0.103788354f,0.0882357135f,0.0726615265f,0.0570695996f,0.0414637402f,0.0258477535f,0.0102254553f,-0.00539933983f,-0.021022819f,-0.0366411656f,-0.0522505715f,-0.0678472221f,
-0.0834273025f,-0.098987028f,-0.114522584f,-0.130030185f,-0.145506039f};
static const float f_cos_hi[1025] = {
-0.145494029f,-0.130018175f,-0.114510581f,-0.0989750251f,-0.0834153071f,-0.0678352192f,-0.0522385687f,-0.0366291665f,-0.021010818f,-0.00538733974f,0.0102374554f,0.0258597527f,
0.0414757393f,0.0570815988f,0.0726735294f,0.0882477164f,0.103800356f,0.119327664f,0.134825841f,0.150291085f,0.165719658f,0.181107774f,0.196451679f,0.211747617f,
0.226991862f,0.24218069f,0.25731039f,0.272377282f,0.287377685f,0.302307904f,0.317164361f,0.331943363f,0.346641332f,0.361254662f,0.375779808f,0.390213221f,
0.404551357f,0.418790728f,0.432927877f,0.446959317f,0.46088165f,0.474691451f,0.488385379f,0.501960099f,0.515412211f,0.528738558f,0.541935802f,0.555000722f,
0.567930162f,0.580720961f,0.593369961f,0.605874121f,0.618230402f,0.630435705f,0.642487109f,0.654381633f,0.666116416f,0.677688599f,0.689095318f,0.700333834f,
0.711401343f,0.722295165f,0.733012676f,0.743551254f,0.753908277f,0.76408124f,0.77406764f,0.783865094f,0.793471217f,0.802883565f,0.812099934f,0.821118057f,
0.82993567f,0.838550687f,0.846961021f,0.855164528f,0.863159299f,0.870943367f,0.878514767f,0.885871708f,0.893012345f,0.899935007f,0.906637907f,0.913119555f,
0.919378221f,0.925412416f,0.93122071f,0.936801672f,0.942153931f,0.947276175f,0.952167153f,0.956825674f,0.961250603f,0.965440869f,0.969395399f,0.973113298f,
0.976593614f,0.97983551f,0.982838213f,0.985600948f,0.988123119f,0.99040401f,0.992443085f,0.994239926f,0.995793998f,0.997104943f,0.998172522f,0.998996377f,
0.99957633f,0.999912322f,1.00000417f,0.999851823f,0.999455392f,0.998815f,0.997930765f,0.996802866f,0.995431662f,0.993817389f,0.991960526f,0.989861488f,
0.987520754f,0.984938979f,0.982116699f,0.979054689f,0.975753665f,0.972214401f,0.968437791f,0.964424789f,0.960176289f,0.955693364f,0.950977206f,0.946028829f,
0.940849483f,0.935440421f,0.929803014f,0.923938632f,0.917848647f,0.911534607f,0.904998064f,0.898240507f,0.891263723f,0.884069324f,0.876659095f,0.869034827f,
0.861198425f,0.853151739f,0.844896793f,0.836435616f,0.827770174f,0.818902671f,0.809835255f,0.80057013f,0.791109562f,0.781455815f,0.771611333f,0.761578441f,
0.751359701f,0.740957439f,0.730374336f,0.719612896f,0.708675802f,0.697565675f,0.686285198f,0.674837232f,0.663224518f,0.651449919f,0.639516234f,0.627426445f,
0.615183473f,0.602790296f,0.590249956f,0.577565551f,0.564740121f,0.551776826f,0.538678765f,0.525449276f,0.512091458f,0.498608649f,0.485004127f,0.471281171f,
0.457443178f,0.443493485f,0.429435551f,0.415272743f,0.401008576f,0.386646509f,0.372190058f,0.35764274f,0.343008101f,0.328289717f,0.313491195f,0.298616141f,
0.28366819f,0.268650979f,0.253568172f,0.238423482f,0.223220587f,0.207963184f,0.192655012f,0.177299812f,0.161901325f,0.14646332f,0.130989552f,0.115483813f,
0.0999498814f,0.0843915492f,0.0688126087f,0.0532168783f,0.0376081541f,0.0219902489f,0.00636697654f,-0.00925784744f,-0.0248804111f,-0.040496897f,-0.0561034977f,-0.0716964006f,
-0.0872717947f,-0.10282588f,-0.118354864f,-0.133854955f,-0.149322361f,-0.164753303f,-0.180144042f,-0.195490777f,-0.2107898f,-0.226037353f,-0.241229728f,-0.256363213f,
-0.271434098f,-0.286438704f,-0.301373392f,-0.316234499f,-0.331018418f,-0.345721483f,-0.360340178f,-0.374870896f,-0.389310092f,-0.403654218f,-0.417899817f,-0.432043403f,
-0.446081489f,-0.460010678f,-0.473827571f,-0.487528771f,-0.501110911f,-0.514570773f,-0.527904987f,-0.541110277f,-0.554183543f,-0.567121446f,-0.579920948f,-0.592578828f,
-0.605092049f,-0.617457509f,-0.629672229f,-0.641733289f,-0.653637648f,-0.665382385f,-0.6769647f,-0.688381791f,-0.699630737f,-0.710708916f,-0.721613586f,-0.732342124f,
-0.742891848f,-0.753260195f,-0.763444602f,-0.773442686f,-0.783251882f,-0.792869925f,-0.802294314f,-0.811522901f,-0.820553362f,-0.829383492f,-0.838011086f,-0.846434176f,
-0.854650557f,-0.862658322f,-0.870455444f,-0.878040075f,-0.885410309f,-0.892564416f,-0.899500608f,-0.906217217f,-0.912712574f,-0.918985128f,-0.925033271f,-0.930855632f,
-0.93645066f,-0.941817164f,-0.946953654f,-0.951858997f,-0.956531942f,-0.960971355f,-0.965176165f,-0.969145358f,-0.97287792f,-0.976373017f,-0.979629695f,-0.98264724f,
-0.985424876f,-0.987961888f,-0.99025774f,-0.992311835f,-0.994123697f,-0.99569279f,-0.997018874f,-0.998101473f,-0.998940468f,-0.999535501f,-0.999886572f,-0.999993503f,
-0.999856353f,-0.999475062f,-0.99884975f,-0.997980595f,-0.996867836f,-0.995511651f,-0.993912399f,-0.992070556f,-0.989986479f,-0.987660766f,-0.985093832f,-0.982286453f,
-0.979239285f,-0.975953043f,-0.972428501f,-0.968666553f,-0.964668155f,-0.960434198f,-0.955965817f,-0.951264024f,-0.946329951f,-0.941164911f,-0.935770035f,-0.930146754f,
-0.924296379f,-0.918220341f,-0.91192013f,-0.905397296f,-0.898653388f,-0.891690135f,-0.884509146f,-0.87711221f,-0.869501173f,-0.861677825f,-0.853644133f,-0.845402062f,
-0.83695358f,-0.828300714f,-0.81944567f,-0.810390592f,-0.801137626f,-0.791689098f,-0.782047272f,-0.772214532f,-0.762193203f,-0.751985848f,-0.741594911f,-0.731022954f,
-0.720272481f,-0.709346175f,-0.698246658f,-0.686976731f,-0.675539017f,-0.663936436f,-0.652171731f,-0.640247822f,-0.628167629f,-0.615934014f,-0.603550076f,-0.591018796f,
-0.578343213f,-0.565526426f,-0.552571535f,-0.539481819f,-0.526260316f,-0.512910366f,-0.499435216f,-0.485838115f,-0.472122401f,-0.458291441f,-0.444348574f,-0.430297226f,
-0.416140825f,-0.401882857f,-0.387526751f,-0.373076022f,-0.358534217f,-0.343904883f,-0.329191595f,-0.314397931f,-0.299527496f,-0.284583956f,-0.269570947f,-0.254492104f,
-0.239351124f,-0.224151716f,-0.208897591f,-0.193592459f,-0.178240061f,-0.162844136f,-0.147408471f,-0.131936818f,-0.116432942f,-0.100900643f,-0.0853437111f,-0.0697659403f,
-0.0541711338f,-0.0385631062f,-0.0229456574f,-0.00732260756f,0.00830223132f,0.0239250455f,0.0395420194f,0.0551493429f,0.0707432032f,0.0863197893f,0.101875313f,0.117405958f,
0.132907942f,0.148377478f,0.163810804f,0.179204136f,0.194553703f,0.209855795f,0.225106642f,0.240302533f,0.255439758f,0.270514637f,0.285523474f,0.300462604f,
0.31532836f,0.330117166f,0.344825357f,0.359449357f,0.373985618f,0.388430595f,0.402780712f,0.41703254f,0.431182504f,0.445227236f,0.459163278f,0.472987205f,
0.486695677f,0.500285327f,0.513752818f,0.527094901f,0.540308297f,0.553389788f,0.566336215f,0.579144359f,0.591811061f,0.604333341f,0.61670804f,0.628932238f,
0.641002834f,0.652916968f,0.664671719f,0.676264167f,0.687691569f,0.698951066f,0.710039854f,0.720955372f,0.731694877f,0.742255747f,0.75263536f,0.762831271f,
0.772840917f,0.782661915f,0.79229188f,0.801728368f,0.810969114f,0.820011914f,0.828854501f,0.837494731f,0.845930517f,0.854159772f,0.862180471f,0.869990706f,
0.87758857f,0.884972155f,0.892139673f,0.899089456f,0.905819654f,0.91232878f,0.918615162f,0.924677253f,0.93051362f,0.936122835f,0.941503465f,0.94665426f,
0.951573968f,0.956261337f,0.960715234f,0.964934647f,0.968918443f,0.972665668f,0.976175487f,0.979446948f,0.982479334f,0.985271811f,0.987823784f,0.990134597f,
0.992203653f,0.994030535f,0.995614707f,0.996955812f,0.998053491f,0.998907566f,0.999517739f,0.99988395f,1.00000596f,0.99988395f,0.999517739f,0.998907566f,
0.998053491f,0.996955812f,0.995614707f,0.994030535f,0.992203653f,0.990134597f,0.987823784f,0.985271811f,0.982479334f,0.979446948f,0.976175487f,0.972665668f,
0.968918443f,0.964934647f,0.960715234f,0.956261337f,0.951573968f,0.94665426f,0.941503465f,0.936122835f,0.93051362f,0.924677253f,0.918615162f,0.91232878f,
0.905819654f,0.899089456f,0.892139673f,0.884972155f,0.87758857f,0.869990706f,0.862180471f,0.854159772f,0.845930517f,0.837494731f,0.828854501f,0.820011914f,
0.810969114f,0.801728368f,0.79229188f,0.782661915f,0.772840917f,0.762831271f,0.75263536f,0.742255747f,0.731694877f,0.720955372f,0.710039854f,0.698951066f,
0.687691569f,0.676264167f,0.664671719f,0.652916968f,0.641002834f,0.628932238f,0.61670804f,0.604333341f,0.591811061f,0.579144359f,0.566336215f,0.553389788f,
0.540308297f,0.527094901f,0.513752818f,0.500285327f,0.486695677f,0.472987205f,0.459163278f,0.445227236f,0.431182504f,0.41703254f,0.402780712f,0.388430595f,
0.373985618f,0.359449357f,0.344825357f,0.330117166f,0.31532836f,0.300462604f,0.285523474f,0.270514637f,0.255439758f,0.240302533f,0.225106642f,0.209855795f,
0.194553703f,0.179204136f,0.163810804f,0.148377478f,0.132907942f,0.117405958f,0.101875313f,0.0863197893f,0.0707432032f,0.0551493429f,0.0395420194f,0.0239250455f,
0.00830223132f,-0.00732260756f,-0.0229456574f,-0.0385631062f,-0.0541711338f,-0.0697659403f,-0.0853437111f,-0.100900643f,-0.116432942f,-0.131936818f,-0.147408471f,-0.162844136f,
-0.178240061f,-0.193592459f,-0.208897591f,-0.224151716f,-0.239351124f,-0.254492104f,-0.269570947f,-0.284583956f,-0.299527496f,-0.314397931f,-0.329191595f,-0.343904883f,
-0.358534217f,-0.373076022f,-0.387526751f,-0.401882857f,-0.416140825f,-0.430297226f,-0.444348574f,-0.458291441f,-0.472122401f,-0.485838115f,-0.499435216f,-0.512910366f,
-0.526260316f,-0.539481819f,-0.552571535f,-0.565526426f,-0.578343213f,-0.591018796f,-0.603550076f,-0.615934014f,-0.628167629f,-0.640247822f,-0.652171731f,-0.663936436f,
-0.675539017f,-0.686976731f,-0.698246658f,-0.709346175f,-0.720272481f,-0.731022954f,-0.741594911f,-0.751985848f,-0.762193203f,-0.772214532f,-0.782047272f,-0.791689098f,
-0.801137626f,-0.810390592f,-0.81944567f,-0.828300714f,-0.83695358f,-0.845402062f,-0.853644133f,-0.861677825f,-0.869501173f,-0.87711221f,-0.884509146f,-0.891690135f,
-0.898653388f,-0.905397296f,-0.91192013f,-0.918220341f,-0.924296379f,-0.930146754f,-0.935770035f,-0.941164911f,-0.946329951f,-0.951264024f,-0.955965817f,-0.960434198f,
-0.964668155f,-0.968666553f,-0.972428501f,-0.975953043f,-0.979239285f,-0.982286453f,-0.985093832f,-0.987660766f,-0.989986479f,-0.992070556f,-0.993912399f,-0.995511651f,
-0.996867836f,-0.997980595f,-0.99884975f,-0.999475062f,-0.999856353f,-0.999993503f,-0.999886572f,-0.999535501f,-0.998940468f,-0.998101473f,-0.997018874f,-0.99569279f,
-0.994123697f,-0.992311835f,-0.99025774f,-0.987961888f,-0.985424876f,-0.98264724f,-0.979629695f,-0.976373017f,-0.97287792f,-0.969145358f,-0.965176165f,-0.960971355f,
-0.956531942f,-0.951858997f,-0.946953654f,-0.941817164f,-0.93645066f,-0.930855632f,-0.925033271f,-0.918985128f,-0.912712574f,-0.906217217f,-0.899500608f,-0.892564416f,
-0.885410309f,-0.878040075f,-0.870455444f,-0.862658322f,-0.854650557f,-0.846434176f,-0.838011086f,-0.829383492f,-0.820553362f,-0.811522901f,-0.802294314f,-0.792869925f,
-0.783251882f,-0.773442686f,-0.763444602f,-0.753260195f,-0.742891848f,-0.732342124f,-0.721613586f,-0.710708916f,-0.699630737f,-0.688381791f,-0.6769647f,-0.665382385f,
-0.653637648f,-0.641733289f,-0.629672229f,-0.617457509f,-0.605092049f,-0.592578828f,-0.579920948f,-0.567121446f,-0.554183543f,-0.541110277f,-0.527904987f,-0.514570773f,
-0.501110911f,-0.487528771f,-0.473827571f,-0.460010678f,-0.446081489f,-0.432043403f,-0.417899817f,-0.403654218f,-0.389310092f,-0.374870896f,-0.360340178f,-0.345721483f,
-0.331018418f,-0.316234499f,-0.301373392f,-0.286438704f,-0.271434098f,-0.256363213f,-0.241229728f,-0.226037353f,-0.2107898f,-0.195490777f,-0.180144042f,-0.164753303f,
-0.149322361f,-0.133854955f,-0.118354864f,-0.10282588f,-0.0872717947f,-0.0716964006f,-0.0561034977f,-0.040496897f,-0.0248804111f,-0.00925784744f,0.00636697654f,0.0219902489f,
0.0376081541f,0.0532168783f,0.0688126087f,0.0843915492f,0.0999498814f,0.115483813f,0.130989552f,0.14646332f,0.161901325f,0.177299812f,0.192655012f,0.207963184f,
0.223220587f,0.238423482f,0.253568172f,0.268650979f,0.28366819f,0.298616141f,0.313491195f,0.328289717f,0.343008101f,0.35764274f,0.372190058f,0.386646509f,
0.401008576f,0.415272743f,0.429435551f,0.443493485f,0.457443178f,0.471281171f,0.485004127f,0.498608649f,0.512091458f,0.525449276f,0.538678765f,0.551776826f,
0.564740121f,0.577565551f,0.590249956f,0.602790296f,0.615183473f,0.627426445f,0.639516234f,0.651449919f,0.663224518f,0.674837232f,0.686285198f,0.697565675f,
0.708675802f,0.719612896f,0.730374336f,0.740957439f,0.751359701f,0.761578441f,0.771611333f,0.781455815f,0.791109562f,0.80057013f,0.809835255f,0.818902671f,
0.827770174f,0.836435616f,0.844896793f,0.853151739f,0.861198425f,0.869034827f,0.876659095f,0.884069324f,0.891263723f,0.898240507f,0.904998064f,0.911534607f,
0.917848647f,0.923938632f,0.929803014f,0.935440421f,0.940849483f,0.946028829f,0.950977206f,0.955693364f,0.960176289f,0.964424789f,0.968437791f,0.972214401f,
0.975753665f,0.979054689f,0.982116699f,0.984938979f,0.987520754f,0.989861488f,0.991960526f,0.993817389f,0.995431662f,0.996802866f,0.997930765f,0.998815f,
0.999455392f,0.999851823f,1.00000417f,0.999912322f,0.99957633f,0.998996377f,0.998172522f,0.997104943f,0.995793998f,0.994239926f,0.992443085f,0.99040401f,
0.988123119f,0.985600948f,0.982838213f,0.97983551f,0.976593614f,0.973113298f,0.969395399f,0.965440869f,0.961250603f,0.956825674f,0.952167153f,0.947276175f,
0.942153931f,0.936801672f,0.93122071f,0.925412416f,0.919378221f,0.913119555f,0.906637907f,0.899935007f,0.893012345f,0.885871708f,0.878514767f,0.870943367f,
0.863159299f,0.855164528f,0.846961021f,0.838550687f,0.82993567f,0.821118057f,0.812099934f,0.802883565f,0.793471217f,0.783865094f,0.77406764f,0.76408124f,
0.753908277f,0.743551254f,0.733012676f,0.722295165f,0.711401343f,0.700333834f,0.689095318f,0.677688599f,0.666116416f,0.654381633f,0.642487109f,0.630435705f,
0.618230402f,0.605874121f,0.593369961f,0.580720961f,0.567930162f,0.555000722f,0.541935802f,0.528738558f,0.515412211f,0.501960099f,0.488385379f,0.474691451f,
0.46088165f,0.446959317f,0.432927877f,0.418790728f,0.404551357f,0.390213221f,0.375779808f,0.361254662f,0.346641332f,0.331943363f,0.317164361f,0.302307904f,
0.287377685f,0.272377282f,0.25731039f,0.24218069f,0.226991862f,0.211747617f,0.196451679f,0.181107774f,0.165719658f,0.150291085f,0.134825841f,0.119327664f,
0.103800356f,0.0882477164f,0.0726735294f,0.0570815988f,0.0414757393f,0.0258597527f,0.0102374554f,-0.00538733974f,-0.021010818f,-0.0366291665f,-0.0522385687f,-0.0678352192f,
-0.0834153071f,-0.0989750251f,-0.114510581f,-0.130018175f,-0.145494029f};
static const float f_cosc_lo[1025] = {
-0.148573995f,-0.13309814f,-0.117590547f,-0.102054991f,-0.0864952654f,-0.0709151775f,-0.0553185306f,-0.0397091284f,-0.0240907799f,-0.00846730173f,0.00715749385f,0.0227797907f,
0.0383957773f,0.0540016368f,0.0695935637f,0.0851677507f,0.100720398f,0.116247699f,0.131745875f,0.147211134f,0.162639692f,0.178027809f,0.193371713f,0.208667651f,
0.223911896f,0.239100724f,0.25423044f,0.269297332f,0.284297705f,0.299227953f,0.314084381f,0.328863382f,0.343561351f,0.358174682f,0.372699857f,0.387133241f,
0.401471406f,0.415710777f,0.429847926f,0.443879366f,0.4578017f,0.4716115f,0.485305429f,0.498880118f,0.512332261f,0.525658607f,0.538855851f,0.551920772f,
0.564850211f,0.57764101f,0.59029001f,0.60279417f,0.615150392f,0.627355754f,0.639407098f,0.651301682f,0.663036466f,0.674608648f,0.686015368f,0.697253883f,
0.708321393f,0.719215214f,0.729932725f,0.740471244f,0.750828266f,0.761001289f,0.770987689f,0.780785143f,0.790391266f,0.799803615f,0.809019983f,0.818038106f,
0.826855719f,0.835470736f,0.843881071f,0.852084577f,0.860079348f,0.867863357f,0.875434816f,0.882791698f,0.889932394f,0.896855056f,0.903557956f,0.910039544f,
0.91629827f,0.922332466f,0.928140759f,0.933721721f,0.93907398f,0.944196224f,0.949087203f,0.953745723f,0.958170652f,0.962360919f,0.966315448f,0.970033348f,
0.973513663f,0.976755559f,0.979758263f,0.982520998f,0.985043108f,0.987323999f,0.989363134f,0.991159916f,0.992714047f,0.994024992f,0.995092571f,0.995916426f,
0.996496379f,0.996832311f,0.996924162f,0.996771872f,0.996375442f,0.995735049f,0.994850814f,0.993722916f,0.992351711f,0.990737438f,0.988880575f,0.986781538f,
0.984440804f,0.981859028f,0.979036748f,0.975974739f,0.972673714f,0.96913445f,0.96535784f,0.961344838f,0.957096338f,0.952613413f,0.947897196f,0.942948818f,
0.937769473f,0.93236047f,0.926723063f,0.920858681f,0.914768696f,0.908454657f,0.901918054f,0.895160556f,0.888183773f,0.880989373f,0.873579144f,0.865954876f,
0.858118474f,0.850071788f,0.841816843f,0.833355665f,0.824690223f,0.815822721f,0.806755304f,0.79749018f,0.788029611f,0.778375864f,0.768531382f,0.75849849f,
0.748279691f,0.737877488f,0.727294385f,0.716532946f,0.705595791f,0.694485664f,0.683205247f,0.671757281f,0.660144567f,0.648369968f,0.636436284f,0.624346435f,
0.612103462f,0.599710345f,0.587170005f,0.57448554f,0.561660111f,0.548696816f,0.535598814f,0.522369325f,0.509011507f,0.495528698f,0.481924146f,0.46820122f,
0.454363197f,0.440413535f,0.426355571f,0.412192792f,0.397928625f,0.383566558f,0.369110107f,0.354562759f,0.33992812f,0.325209767f,0.310411245f,0.29553619f,
0.28058821f,0.265571028f,0.250488222f,0.235343531f,0.220140621f,0.204883218f,0.189575061f,0.174219847f,0.158821374f,0.143383354f,0.127909601f,0.112403855f,
0.0968699157f,0.0813115835f,0.0657326505f,0.0501369163f,0.0345281921f,0.0189102869f,0.00328701525f,-0.0123378094f,-0.0279603731f,-0.0435768589f,-0.0591834597f,-0.0747763589f,
-0.0903517529f,-0.105905846f,-0.121434823f,-0.136934906f,-0.152402326f,-0.167833269f,-0.183223993f,-0.198570743f,-0.213869765f,-0.229117319f,-0.244309694f,-0.259443164f,
-0.274514049f,-0.289518654f,-0.304453343f,-0.31931445f,-0.334098369f,-0.348801464f,-0.363420129f,-0.377950847f,-0.392390043f,-0.406734198f,-0.420979798f,-0.435123354f,
-0.44916144f,-0.463090628f,-0.476907521f,-0.490608722f,-0.504190922f,-0.517650723f,-0.530984938f,-0.544190288f,-0.557263494f,-0.570201397f,-0.583000898f,-0.595658779f,
-0.608171999f,-0.62053746f,-0.63275224f,-0.64481324f,-0.656717598f,-0.668462336f,-0.680044651f,-0.691461742f,-0.702710688f,-0.713788927f,-0.724693596f,-0.735422075f,
-0.745971799f,-0.756340146f,-0.766524553f,-0.776522636f,-0.786331832f,-0.795949876f,-0.805374324f,-0.814602852f,-0.823633313f,-0.832463443f,-0.841091096f,-0.849514127f,
-0.857730508f,-0.865738273f,-0.873535395f,-0.881120026f,-0.888490319f,-0.895644426f,-0.902580619f,-0.909297168f,-0.915792525f,-0.922065079f,-0.928113222f,-0.933935583f,
-0.939530671f,-0.944897115f,-0.950033605f,-0.954938948f,-0.959611893f,-0.964051306f,-0.968256176f,-0.972225308f,-0.97595793f,-0.979452968f,-0.982709646f,-0.985727191f,
-0.988504827f,-0.991041839f,-0.993337691f,-0.995391786f,-0.997203648f,-0.99877274f,-1.00009882f,-1.00118148f,-1.00202036f,-1.00261545f,-1.00296652f,-1.00307345f,
-1.00293636f,-1.00255501f,-1.00192976f,-1.00106061f,-0.999947786f,-0.998591602f,-0.996992409f,-0.995150506f,-0.99306643f,-0.990740716f,-0.988173842f,-0.985366464f,
-0.982319236f,-0.979032993f,-0.975508451f,-0.971746504f,-0.967748106f,-0.963514149f,-0.959045768f,-0.954343975f,-0.949409962f,-0.944244862f,-0.938850045f,-0.933226705f,
-0.92737633f,-0.921300292f,-0.915000081f,-0.908477247f,-0.901733339f,-0.894770086f,-0.887589097f,-0.88019222f,-0.872581124f,-0.864757836f,-0.856724143f,-0.848482013f,
-0.840033531f,-0.831380665f,-0.82252562f,-0.813470542f,-0.804217577f,-0.794769049f,-0.785127223f,-0.775294483f,-0.765273213f,-0.755065858f,-0.744674921f,-0.734102905f,
-0.723352432f,-0.712426126f,-0.701326609f,-0.690056682f,-0.678619027f,-0.667016387f,-0.655251741f,-0.643327832f,-0.63124758f,-0.619014025f,-0.606630027f,-0.594098747f,
-0.581423163f,-0.568606377f,-0.555651546f,-0.542561769f,-0.529340267f,-0.515990376f,-0.502515197f,-0.488918096f,-0.475202382f,-0.461371392f,-0.447428524f,-0.433377206f,
-0.419220805f,-0.404962808f,-0.390606701f,-0.376155972f,-0.361614168f,-0.346984833f,-0.332271546f,-0.317477882f,-0.302607477f,-0.287663907f,-0.272650898f,-0.257572055f,
-0.242431089f,-0.227231681f,-0.211977541f,-0.19667241f,-0.181320012f,-0.165924102f,-0.150488436f,-0.135016769f,-0.119512901f,-0.103980601f,-0.0884236693f,-0.0728458986f,
-0.0572510958f,-0.0416430645f,-0.0260256194f,-0.0104025695f,0.00522227027f,0.0208450835f,0.0364620574f,0.0520693809f,0.0676632375f,0.083239831f,0.0987953469f,0.114325993f,
0.129827976f,0.145297527f,0.160730839f,0.17612417f,0.191473752f,0.206775829f,0.222026676f,0.237222582f,0.252359807f,0.267434686f,0.282443494f,0.297382623f,
0.312248409f,0.327037185f,0.341745377f,0.356369406f,0.370905668f,0.385350645f,0.399700761f,0.413952559f,0.428102553f,0.442147285f,0.456083298f,0.469907254f,
0.483615696f,0.497205347f,0.510672867f,0.52401495f,0.537228346f,0.550309837f,0.563256264f,0.576064348f,0.58873111f,0.60125339f,0.613628089f,0.625852287f,
0.637922883f,0.649837017f,0.661591768f,0.673184216f,0.684611619f,0.695871055f,0.706959903f,0.717875421f,0.728614926f,0.739175737f,0.749555409f,0.75975132f,
0.769760966f,0.779581964f,0.789211869f,0.798648417f,0.807889163f,0.816931963f,0.82577455f,0.83441478f,0.842850566f,0.851079822f,0.859100521f,0.866910756f,
0.874508619f,0.881892204f,0.889059722f,0.896009505f,0.902739704f,0.909248829f,0.915535212f,0.921597302f,0.92743367f,0.933042824f,0.938423514f,0.943574309f,
0.948493958f,0.953181386f,0.957635283f,0.961854637f,0.965838432f,0.969585717f,0.973095536f,0.976366997f,0.979399323f,0.982191861f,0.984743834f,0.987054646f,
0.989123702f,0.990950525f,0.992534697f,0.993875861f,0.99497354f,0.995827615f,0.996437788f,0.996803999f,0.99692601f,0.996803999f,0.996437788f,0.995827615f,
0.99497354f,0.993875861f,0.992534697f,0.990950525f,0.989123702f,0.987054646f,0.984743834f,0.982191861f,0.979399323f,0.976366997f,0.973095536f,0.969585717f,
0.965838432f,0.961854637f,0.957635283f,0.953181386f,0.948493958f,0.943574309f,0.938423514f,0.933042824f,0.92743367f,0.921597302f,0.915535212f,0.909248829f,
0.902739704f,0.896009505f,0.889059722f,0.881892204f,0.874508619f,0.866910756f,0.859100521f,0.851079822f,0.842850566f,0.83441478f,0.82577455f,0.816931963f,
0.807889163f,0.798648417f,0.789211869f,0.779581964f,0.769760966f,0.75975132f,0.749555409f,0.739175737f,0.728614926f,0.717875421f,0.706959903f,0.695871055f,
0.684611619f,0.673184216f,0.661591768f,0.649837017f,0.637922883f,0.625852287f,0.613628089f,0.60125339f,0.58873111f,0.576064348f,0.563256264f,0.550309837f,
0.537228346f,0.52401495f,0.510672867f,0.497205347f,0.483615696f,0.469907254f,0.456083298f,0.442147285f,0.428102553f,0.413952559f,0.399700761f,0.385350645f,
0.370905668f,0.356369406f,0.341745377f,0.327037185f,0.312248409f,0.297382623f,0.282443494f,0.267434686f,0.252359807f,0.237222582f,0.222026676f,0.206775829f,
0.191473752f,0.17612417f,0.160730839f,0.145297527f,0.129827976f,0.114325993f,0.0987953469f,0.083239831f,0.0676632375f,0.0520693809f,0.0364620574f,0.0208450835f,
0.00522227027f,-0.0104025695f,-0.0260256194f,-0.0416430645f,-0.0572510958f,-0.0728458986f,-0.0884236693f,-0.103980601f,-0.119512901f,-0.135016769f,-0.150488436f,-0.165924102f,
-0.181320012f,-0.19667241f,-0.211977541f,-0.227231681f,-0.242431089f,-0.257572055f,-0.272650898f,-0.287663907f,-0.302607477f,-0.317477882f,-0.332271546f,-0.346984833f,
-0.361614168f,-0.376155972f,-0.390606701f,-0.404962808f,-0.419220805f,-0.433377206f,-0.447428524f,-0.461371392f,-0.475202382f,-0.488918096f,-0.502515197f,-0.515990376f,
-0.529340267f,-0.542561769f,-0.555651546f,-0.568606377f,-0.581423163f,-0.594098747f,-0.606630027f,-0.619014025f,-0.63124758f,-0.643327832f,-0.655251741f,-0.667016387f,
-0.678619027f,-0.690056682f,-0.701326609f,-0.712426126f,-0.723352432f,-0.734102905f,-0.744674921f,-0.755065858f,-0.765273213f,-0.775294483f,-0.785127223f,-0.794769049f,
-0.804217577f,-0.813470542f,-0.82252562f,-0.831380665f,-0.840033531f,-0.848482013f,-0.856724143f,-0.864757836f,-0.872581124f,-0.88019222f,-0.887589097f,-0.894770086f,
-0.901733339f,-0.908477247f,-0.915000081f,-0.921300292f,-0.92737633f,-0.933226705f,-0.938850045f,-0.944244862f,-0.949409962f,-0.954343975f,-0.959045768f,-0.963514149f,
-0.967748106f,-0.971746504f,-0.975508451f,-0.979032993f,-0.982319236f,-0.985366464f,-0.988173842f,-0.990740716f,-0.99306643f,-0.995150506f,-0.996992409f,-0.998591602f,
-0.999947786f,-1.00106061f,-1.00192976f,-1.00255501f,-1.00293636f,-1.00307345f,-1.00296652f,-1.00261545f,-1.00202036f,-1.00118148f,-1.00009882f,-0.99877274f,
-0.997203648f,-0.995391786f,-0.993337691f,-0.991041839f,-0.988504827f,-0.985727191f,-0.982709646f,-0.979452968f,-0.97595793f,-0.972225308f,-0.968256176f,-0.964051306f,
-0.959611893f,-0.954938948f,-0.950033605f,-0.944897115f,-0.939530671f,-0.933935583f,-0.928113222f,-0.922065079f,-0.915792525f,-0.909297168f,-0.902580619f,-0.895644426f,
-0.888490319f,-0.881120026f,-0.873535395f,-0.865738273f,-0.857730508f,-0.849514127f,-0.841091096f,-0.832463443f,-0.823633313f,-0.814602852f,-0.805374324f,-0.795949876f,
-0.786331832f,-0.776522636f,-0.766524553f,-0.756340146f,-0.745971799f,-0.735422075f,-0.724693596f,-0.713788927f,-0.702710688f,-0.691461742f,-0.680044651f,-0.668462336f,
-0.656717598f,-0.64481324f,-0.63275224f,-0.62053746f,-0.608171999f,-0.595658779f,-0.583000898f,-0.570201397f,-0.557263494f,-0.544190288f,-0.530984938f,-0.517650723f,
-0.504190922f,-0.490608722f,-0.476907521f,-0.463090628f,-0.44916144f,-0.435123354f,-0.420979798f,-0.406734198f,-0.392390043f,-0.377950847f,-0.363420129f,-0.348801464f,
-0.334098369f,-0.31931445f,-0.304453343f,-0.289518654f,-0.274514049f,-0.259443164f,-0.244309694f,-0.229117319f,-0.213869765f,-0.198570743f,-0.183223993f,-0.167833269f,
-0.152402326f,-0.136934906f,-0.121434823f,-0.105905846f,-0.0903517529f,-0.0747763589f,-0.0591834597f,-0.0435768589f,-0.0279603731f,-0.0123378094f,0.00328701525f,0.0189102869f,
0.0345281921f,0.0501369163f,0.0657326505f,0.0813115835f,0.0968699157f,0.112403855f,0.127909601f,0.143383354f,0.158821374f,0.174219847f,0.189575061f,0.204883218f,
0.220140621f,0.235343531f,0.250488222f,0.265571028f,0.28058821f,0.29553619f,0.310411245f,0.325209767f,0.33992812f,0.354562759f,0.369110107f,0.383566558f,
0.397928625f,0.412192792f,0.426355571f,0.440413535f,0.454363197f,0.46820122f,0.481924146f,0.495528698f,0.509011507f,0.522369325f,0.535598814f,0.548696816f,
0.561660111f,0.57448554f,0.587170005f,0.599710345f,0.612103462f,0.624346435f,0.636436284f,0.648369968f,0.660144567f,0.671757281f,0.683205247f,0.694485664f,
0.705595791f,0.716532946f,0.727294385f,0.737877488f,0.748279691f,0.75849849f,0.768531382f,0.778375864f,0.788029611f,0.79749018f,0.806755304f,0.815822721f,
0.824690223f,0.833355665f,0.841816843f,0.850071788f,0.858118474f,0.865954876f,0.873579144f,0.880989373f,0.888183773f,0.895160556f,0.901918054f,0.908454657f,
0.914768696f,0.920858681f,0.926723063f,0.93236047f,0.937769473f,0.942948818f,0.947897196f,0.952613413f,0.957096338f,0.961344838f,0.96535784f,0.96913445f,
0.972673714f,0.975974739f,0.979036748f,0.981859028f,0.984440804f,0.986781538f,0.988880575f,0.990737438f,0.992351711f,0.993722916f,0.994850814f,0.995735049f,
0.996375442f,0.996771872f,0.996924162f,0.996832311f,0.996496379f,0.995916426f,0.995092571f,0.994024992f,0.992714047f,0.991159916f,0.989363134f,0.987323999f,
0.985043108f,0.982520998f,0.979758263f,0.976755559f,0.973513663f,0.970033348f,0.966315448f,0.962360919f,0.958170652f,0.953745723f,0.949087203f,0.944196224f,
0.93907398f,0.933721721f,0.928140759f,0.922332466f,0.91629827f,0.910039544f,0.903557956f,0.896855056f,0.889932394f,0.882791698f,0.875434816f,0.867863357f,
0.860079348f,0.852084577f,0.843881071f,0.835470736f,0.826855719f,0.818038106f,0.809019983f,0.799803615f,0.790391266f,0.780785143f,0.770987689f,0.761001289f,
0.750828266f,0.740471244f,0.729932725f,0.719215214f,0.708321393f,0.697253883f,0.686015368f,0.674608648f,0.663036466f,0.651301682f,0.639407098f,0.627355754f,
0.615150392f,0.60279417f,0.59029001f,0.57764101f,0.564850211f,0.551920772f,0.538855851f,0.525658607f,0.512332261f,0.498880118f,0.485305429f,0.4716115f,
0.4578017f,0.443879366f,0.429847926f,0.415710777f,0.401471406f,0.387133241f,0.372699857f,0.358174682f,0.343561351f,0.328863382f,0.314084381f,0.299227953f,
0.284297705f,0.269297332f,0.25423044f,0.239100724f,0.223911896f,0.208667651f,0.193371713f,0.178027809f,0.162639692f,0.147211134f,0.131745875f,0.116247699f,
0.100720398f,0.0851677507f,0.0695935637f,0.0540016368f,0.0383957773f,0.0227797907f,0.00715749385f,-0.00846730173f,-0.0240907799f,-0.0397091284f,-0.0553185306f,-0.0709151775f,
-0.0864952654f,-0.102054991f,-0.117590547f,-0.13309814f,-0.148573995f};
static const float f_cosc_hi[1025] = {
-0.142426074f,-0.126950219f,-0.111442618f,-0.0959070623f,-0.0803473443f,-0.0647672564f,-0.0491706096f,-0.0335612036f,-0.017942857f,-0.00231937831f,0.0133054173f,0.0289277136f,
0.0445436984f,0.0601495616f,0.0757414922f,0.0913156718f,0.106868319f,0.12239562f,0.137893796f,0.153359056f,0.168787628f,0.18417573f,0.199519634f,0.214815572f,
0.230059817f,0.245248646f,0.260378361f,0.275445253f,0.290445626f,0.305375874f,0.320232302f,0.335011303f,0.349709272f,0.364322633f,0.378847778f,0.393281162f,
0.407619327f,0.421858698f,0.435995847f,0.450027287f,0.463949621f,0.477759421f,0.49145335f,0.505028069f,0.518480182f,0.531806529f,0.545003772f,0.558068693f,
0.570998132f,0.583788931f,0.596437931f,0.608942091f,0.621298313f,0.633503675f,0.645555079f,0.657449603f,0.669184387f,0.680756569f,0.692163289f,0.703401804f,
0.714469314f,0.725363135f,0.736080647f,0.746619165f,0.756976187f,0.76714921f,0.777135611f,0.786933064f,0.796539187f,0.805951536f,0.815167904f,0.824186027f,
0.83300364f,0.841618657f,0.850028992f,0.858232498f,0.866227269f,0.874011338f,0.881582737f,0.888939619f,0.896080315f,0.903002977f,0.909705877f,0.916187465f,
0.922446191f,0.928480387f,0.934288681f,0.939869642f,0.945221901f,0.950344145f,0.955235124f,0.959893644f,0.964318573f,0.96850884f,0.972463369f,0.976181269f,
0.979661584f,0.982903481f,0.985906184f,0.988668919f,0.99119103f,0.99347198f,0.995511055f,0.997307897f,0.998861969f,1.00017297f,1.00124049f,1.00206435f,
1.0026443f,1.00298023f,1.00307214f,1.00291979f,1.00252342f,1.00188303f,1.00099874f,0.999870837f,0.998499632f,0.996885359f,0.995028496f,0.992929459f,
0.990588725f,0.988006949f,0.985184669f,0.98212266f,0.978821635f,0.975282371f,0.971505761f,0.967492759f,0.963244259f,0.958761334f,0.954045117f,0.949096739f,
0.943917453f,0.938508391f,0.932870984f,0.927006602f,0.920916617f,0.914602578f,0.908066034f,0.901308477f,0.894331694f,0.887137294f,0.879727066f,0.872102797f,
0.864266396f,0.856219709f,0.847964764f,0.839503586f,0.830838144f,0.821970642f,0.812903225f,0.803638101f,0.794177532f,0.784523785f,0.774679303f,0.764646411f,
0.754427612f,0.744025409f,0.733442307f,0.722680867f,0.711743712f,0.700633585f,0.689353168f,0.677905202f,0.666292489f,0.654517889f,0.642584205f,0.630494356f,
0.618251383f,0.605858266f,0.593317926f,0.580633461f,0.567808032f,0.554844737f,0.541746736f,0.528517246f,0.515159428f,0.501676619f,0.488072097f,0.474349141f,
0.460511148f,0.446561456f,0.432503521f,0.418340713f,0.404076546f,0.389714479f,0.375258029f,0.36071068f,0.346076041f,0.331357688f,0.316559166f,0.301684111f,
0.286736161f,0.271718949f,0.256636143f,0.241491452f,0.226288542f,0.211031139f,0.195722982f,0.180367783f,0.164969295f,0.14953129f,0.134057522f,0.118551776f,
0.103017844f,0.0874595121f,0.0718805715f,0.0562848374f,0.0406761132f,0.0250582099f,0.00943493843f,-0.00618988648f,-0.0218124501f,-0.0374289379f,-0.0530355349f,-0.0686284378f,
-0.0842038319f,-0.0997579172f,-0.115286902f,-0.130786985f,-0.14625439f,-0.161685348f,-0.177076072f,-0.192422822f,-0.207721844f,-0.222969398f,-0.238161758f,-0.253295243f,
-0.268366128f,-0.283370733f,-0.298305422f,-0.313166529f,-0.327950448f,-0.342653543f,-0.357272208f,-0.371802926f,-0.386242121f,-0.400586277f,-0.414831877f,-0.428975433f,
-0.443013519f,-0.456942707f,-0.4707596f,-0.484460801f,-0.498042971f,-0.511502802f,-0.524837017f,-0.538042367f,-0.551115572f,-0.564053476f,-0.576852977f,-0.589510858f,
-0.602024078f,-0.614389539f,-0.626604319f,-0.638665318f,-0.650569677f,-0.662314415f,-0.67389673f,-0.685313821f,-0.696562767f,-0.707641006f,-0.718545675f,-0.729274154f,
-0.739823878f,-0.750192225f,-0.760376632f,-0.770374715f,-0.780183911f,-0.789801955f,-0.799226403f,-0.808454931f,-0.817485392f,-0.826315522f,-0.834943175f,-0.843366206f,
-0.851582587f,-0.859590352f,-0.867387474f,-0.874972105f,-0.882342398f,-0.889496505f,-0.896432698f,-0.903149247f,-0.909644604f,-0.915917158f,-0.921965301f,-0.927787662f,
-0.93338275f,-0.938749194f,-0.943885684f,-0.948791027f,-0.953463972f,-0.957903385f,-0.962108254f,-0.966077387f,-0.969810009f,-0.973305047f,-0.976561725f,-0.97957927f,
-0.982356906f,-0.984893918f,-0.98718977f,-0.989243865f,-0.991055727f,-0.992624819f,-0.993950903f,-0.995033503f,-0.995872498f,-0.99646759f,-0.996818602f,-0.996925592f,
-0.996788383f,-0.996407092f,-0.995781779f,-0.994912624f,-0.993799865f,-0.992443681f,-0.990844488f,-0.989002585f,-0.986918509f,-0.984592795f,-0.982025921f,-0.979218543f,
-0.976171315f,-0.972885072f,-0.96936053f,-0.965598583f,-0.961600184f,-0.957366228f,-0.952897847f,-0.948196054f,-0.943262041f,-0.938096941f,-0.932702124f,-0.927078784f,
-0.921228409f,-0.915152371f,-0.90885216f,-0.902329326f,-0.895585418f,-0.888622165f,-0.881441176f,-0.874044299f,-0.866433203f,-0.858609915f,-0.850576222f,-0.842334092f,
-0.83388561f,-0.825232744f,-0.816377699f,-0.807322621f,-0.798069656f,-0.788621128f,-0.778979301f,-0.769146562f,-0.759125292f,-0.748917937f,-0.73852694f,-0.727954984f,
-0.717204511f,-0.706278205f,-0.695178688f,-0.683908761f,-0.672471106f,-0.660868466f,-0.64910382f,-0.637179852f,-0.625099659f,-0.612866104f,-0.600482106f,-0.587950826f,
-0.575275242f,-0.562458456f,-0.549503624f,-0.536413848f,-0.523192346f,-0.509842455f,-0.496367246f,-0.482770175f,-0.469054461f,-0.455223471f,-0.441280603f,-0.427229285f,
-0.413072884f,-0.398814887f,-0.38445878f,-0.370008051f,-0.355466247f,-0.340836912f,-0.326123625f,-0.311329961f,-0.296459556f,-0.281515986f,-0.266502976f,-0.251424134f,
-0.236283168f,-0.22108376f,-0.20582962f,-0.190524489f,-0.175172091f,-0.159776181f,-0.144340515f,-0.128868848f,-0.11336498f,-0.0978326797f,-0.0822757483f,-0.0666979775f,
-0.0511031747f,-0.0354951434f,-0.0198776964f,-0.00425464613f,0.0113701932f,0.0269930065f,0.0426099822f,0.058217302f,0.073811166f,0.0893877521f,0.104943268f,0.120473921f,
0.135975912f,0.151445448f,0.16687876f,0.182272092f,0.197621673f,0.21292375f,0.228174597f,0.243370503f,0.258507729f,0.273582608f,0.288591415f,0.303530544f,
0.31839633f,0.333185107f,0.347893327f,0.362517327f,0.377053589f,0.391498566f,0.405848682f,0.42010048f,0.434250474f,0.448295206f,0.462231219f,0.476055175f,
0.489763618f,0.503353298f,0.516820788f,0.530162871f,0.543376267f,0.556457758f,0.569404185f,0.582212269f,0.594879031f,0.607401311f,0.619776011f,0.632000208f,
0.644070804f,0.655984938f,0.667739689f,0.679332137f,0.69075954f,0.702018976f,0.713107824f,0.724023342f,0.734762847f,0.745323658f,0.75570333f,0.765899241f,
0.775908887f,0.785729885f,0.79535985f,0.804796338f,0.814037085f,0.823079884f,0.831922472f,0.840562701f,0.848998487f,0.857227743f,0.865248442f,0.873058677f,
0.88065654f,0.888040125f,0.895207644f,0.902157426f,0.908887625f,0.91539675f,0.921683133f,0.927745223f,0.933581591f,0.939190745f,0.944571435f,0.94972223f,
0.954641938f,0.959329307f,0.963783205f,0.968002558f,0.971986413f,0.975733638f,0.979243457f,0.982514918f,0.985547304f,0.988339782f,0.990891755f,0.993202567f,
0.995271623f,0.997098505f,0.998682678f,1.00002372f,1.00112152f,1.00197554f,1.00258577f,1.00295186f,1.00307393f,1.00295186f,1.00258577f,1.00197554f,
1.00112152f,1.00002372f,0.998682678f,0.997098505f,0.995271623f,0.993202567f,0.990891755f,0.988339782f,0.985547304f,0.982514918f,0.979243457f,0.975733638f,
0.971986413f,0.968002558f,0.963783205f,0.959329307f,0.954641938f,0.94972223f,0.944571435f,0.939190745f,0.933581591f,0.927745223f,0.921683133f,0.91539675f,
0.908887625f,0.902157426f,0.895207644f,0.888040125f,0.88065654f,0.873058677f,0.865248442f,0.857227743f,0.848998487f,0.840562701f,0.831922472f,0.823079884f,
0.814037085f,0.804796338f,0.79535985f,0.785729885f,0.775908887f,0.765899241f,0.75570333f,0.745323658f,0.734762847f,0.724023342f,0.713107824f,0.702018976f,
0.69075954f,0.679332137f,0.667739689f,0.655984938f,0.644070804f,0.632000208f,0.619776011f,0.607401311f,0.594879031f,0.582212269f,0.569404185f,0.556457758f,
0.543376267f,0.530162871f,0.516820788f,0.503353298f,0.489763618f,0.476055175f,0.462231219f,0.448295206f,0.434250474f,0.42010048f,0.405848682f,0.391498566f,
0.377053589f,0.362517327f,0.347893327f,0.333185107f,0.31839633f,0.303530544f,0.288591415f,0.273582608f,0.258507729f,0.243370503f,0.228174597f,0.21292375f,
0.197621673f,0.182272092f,0.16687876f,0.151445448f,0.135975912f,0.120473921f,0.104943268f,0.0893877521f,0.073811166f,0.058217302f,0.0426099822f,0.0269930065f,
0.0113701932f,-0.00425464613f,-0.0198776964f,-0.0354951434f,-0.0511031747f,-0.0666979775f,-0.0822757483f,-0.0978326797f,-0.11336498f,-0.128868848f,-0.144340515f,-0.159776181f,
-0.175172091f,-0.190524489f,-0.20582962f,-0.22108376f,-0.236283168f,-0.251424134f,-0.266502976f,-0.281515986f,-0.296459556f,-0.311329961f,-0.326123625f,-0.340836912f,
-0.355466247f,-0.370008051f,-0.38445878f,-0.398814887f,-0.413072884f,-0.427229285f,-0.441280603f,-0.455223471f,-0.469054461f,-0.482770175f,-0.496367246f,-0.509842455f,
-0.523192346f,-0.536413848f,-0.549503624f,-0.562458456f,-0.575275242f,-0.587950826f,-0.600482106f,-0.612866104f,-0.625099659f,-0.637179852f,-0.64910382f,-0.660868466f,
-0.672471106f,-0.683908761f,-0.695178688f,-0.706278205f,-0.717204511f,-0.727954984f,-0.73852694f,-0.748917937f,-0.759125292f,-0.769146562f,-0.778979301f,-0.788621128f,
-0.798069656f,-0.807322621f,-0.816377699f,-0.825232744f,-0.83388561f,-0.842334092f,-0.850576222f,-0.858609915f,-0.866433203f,-0.874044299f,-0.881441176f,-0.888622165f,
-0.895585418f,-0.902329326f,-0.90885216f,-0.915152371f,-0.921228409f,-0.927078784f,-0.932702124f,-0.938096941f,-0.943262041f,-0.948196054f,-0.952897847f,-0.957366228f,
-0.961600184f,-0.965598583f,-0.96936053f,-0.972885072f,-0.976171315f,-0.979218543f,-0.982025921f,-0.984592795f,-0.986918509f,-0.989002585f,-0.990844488f,-0.992443681f,
-0.993799865f,-0.994912624f,-0.995781779f,-0.996407092f,-0.996788383f,-0.996925592f,-0.996818602f,-0.99646759f,-0.995872498f,-0.995033503f,-0.993950903f,-0.992624819f,
-0.991055727f,-0.989243865f,-0.98718977f,-0.984893918f,-0.982356906f,-0.97957927f,-0.976561725f,-0.973305047f,-0.969810009f,-0.966077387f,-0.962108254f,-0.957903385f,
-0.953463972f,-0.948791027f,-0.943885684f,-0.938749194f,-0.93338275f,-0.927787662f,-0.921965301f,-0.915917158f,-0.909644604f,-0.903149247f,-0.896432698f,-0.889496505f,
-0.882342398f,-0.874972105f,-0.867387474f,-0.859590352f,-0.851582587f,-0.843366206f,-0.834943175f,-0.826315522f,-0.817485392f,-0.808454931f,-0.799226403f,-0.789801955f,
-0.780183911f,-0.770374715f,-0.760376632f,-0.750192225f,-0.739823878f,-0.729274154f,-0.718545675f,-0.707641006f,-0.696562767f,-0.685313821f,-0.67389673f,-0.662314415f,
-0.650569677f,-0.638665318f,-0.626604319f,-0.614389539f,-0.602024078f,-0.589510858f,-0.576852977f,-0.564053476f,-0.551115572f,-0.538042367f,-0.524837017f,-0.511502802f,
-0.498042971f,-0.484460801f,-0.4707596f,-0.456942707f,-0.443013519f,-0.428975433f,-0.414831877f,-0.400586277f,-0.386242121f,-0.371802926f,-0.357272208f,-0.342653543f,
-0.327950448f,-0.313166529f,-0.298305422f,-0.283370733f,-0.268366128f,-0.253295243f,-0.238161758f,-0.222969398f,-0.207721844f,-0.192422822f,-0.177076072f,-0.161685348f,
-0.14625439f,-0.130786985f,-0.115286902f,-0.0997579172f,-0.0842038319f,-0.0686284378f,-0.0530355349f,-0.0374289379f,-0.0218124501f,-0.00618988648f,0.00943493843f,0.0250582099f,
0.0406761132f,0.0562848374f,0.0718805715f,0.0874595121f,0.103017844f,0.118551776f,0.134057522f,0.14953129f,0.164969295f,0.180367783f,0.195722982f,0.211031139f,
0.226288542f,0.241491452f,0.256636143f,0.271718949f,0.286736161f,0.301684111f,0.316559166f,0.331357688f,0.346076041f,0.36071068f,0.375258029f,0.389714479f,
0.404076546f,0.418340713f,0.432503521f,0.446561456f,0.460511148f,0.474349141f,0.488072097f,0.501676619f,0.515159428f,0.528517246f,0.541746736f,0.554844737f,
0.567808032f,0.580633461f,0.593317926f,0.605858266f,0.618251383f,0.630494356f,0.642584205f,0.654517889f,0.666292489f,0.677905202f,0.689353168f,0.700633585f,
0.711743712f,0.722680867f,0.733442307f,0.744025409f,0.754427612f,0.764646411f,0.774679303f,0.784523785f,0.794177532f,0.803638101f,0.812903225f,0.821970642f,
0.830838144f,0.839503586f,0.847964764f,0.856219709f,0.864266396f,0.872102797f,0.879727066f,0.887137294f,0.894331694f,0.901308477f,0.908066034f,0.914602578f,
0.920916617f,0.927006602f,0.932870984f,0.938508391f,0.943917453f,0.949096739f,0.954045117f,0.958761334f,0.963244259f,0.967492759f,0.971505761f,0.975282371f,
0.978821635f,0.98212266f,0.985184669f,0.988006949f,0.990588725f,0.992929459f,0.995028496f,0.996885359f,0.998499632f,0.999870837f,1.00099874f,1.00188303f,
1.00252342f,1.00291979f,1.00307214f,1.00298023f,1.0026443f,1.00206435f,1.00124049f,1.00017297f,0.998861969f,0.997307897f,0.995511055f,0.99347198f,
0.99119103f,0.988668919f,0.985906184f,0.982903481f,0.979661584f,0.976181269f,0.972463369f,0.96850884f,0.964318573f,0.959893644f,0.955235124f,0.950344145f,
0.945221901f,0.939869642f,0.934288681f,0.928480387f,0.922446191f,0.916187465f,0.909705877f,0.903002977f,0.896080315f,0.888939619f,0.881582737f,0.874011338f,
0.866227269f,0.858232498f,0.850028992f,0.841618657f,0.83300364f,0.824186027f,0.815167904f,0.805951536f,0.796539187f,0.786933064f,0.777135611f,0.76714921f,
0.756976187f,0.746619165f,0.736080647f,0.725363135f,0.714469314f,0.703401804f,0.692163289f,0.680756569f,0.669184387f,0.657449603f,0.645555079f,0.633503675f,
0.621298313f,0.608942091f,0.596437931f,0.583788931f,0.570998132f,0.558068693f,0.545003772f,0.531806529f,0.518480182f,0.505028069f,0.49145335f,0.477759421f,
0.463949621f,0.450027287f,0.435995847f,0.421858698f,0.407619327f,0.393281162f,0.378847778f,0.364322633f,0.349709272f,0.335011303f,0.320232302f,0.305375874f,
0.290445626f,0.275445253f,0.260378361f,0.245248646f,0.230059817f,0.214815572f,0.199519634f,0.18417573f,0.168787628f,0.153359056f,0.137893796f,0.12239562f,
0.106868319f,0.0913156718f,0.0757414922f,0.0601495616f,0.0445436984f,0.0289277136f,0.0133054173f,-0.00231937831f,-0.017942857f,-0.0335612036f,-0.0491706096f,-0.0647672564f,
-0.0803473443f,-0.0959070623f,-0.111442618f,-0.126950219f,-0.142426074f};
static const float f_tan_lo[1025] = {
6.79902554f,7.62463188f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,
-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-7.35044622f,-6.579072f,-5.95153999f,-5.43081188f,-4.99156141f,-4.61588144f,
-4.29075432f,-4.00648975f,-3.75572348f,-3.53276086f,-3.33312869f,-3.15326333f,-2.99029136f,-2.84187055f,-2.70607185f,-2.58129215f,-2.46618867f,-2.35962772f,
-2.26064587f,-2.16841865f,-2.08223701f,-2.00148678f,-1.92563462f,-1.85421395f,-1.78681564f,-1.72307873f,-1.6626842f,-1.60534847f,-1.55081904f,-1.49887002f,
-1.44929874f,-1.40192306f,-1.35657859f,-1.31311667f,-1.27140248f,-1.23131347f,-1.19273818f,-1.15557444f,-1.11972904f,-1.08511639f,-1.05165803f,-1.01928163f,
-0.987920403f,-0.957512677f,-0.928001523f,-0.899334013f,-0.871461093f,-0.844337046f,-0.817919493f,-0.792168617f,-0.767047524f,-0.742521524f,-0.718558073f,-0.695126832f,
-0.67219913f,-0.649748087f,-0.62774837f,-0.606176019f,-0.585008562f,-0.564224541f,-0.543803871f,-0.523727298f,-0.503976643f,-0.484534681f,-0.465384871f,-0.446511596f,
-0.427899837f,-0.409535348f,-0.39140439f,-0.37349385f,-0.355791181f,-0.338284254f,-0.320961416f,-0.303811491f,-0.28682363f,-0.269987345f,-0.253292531f,-0.236729369f,
-0.220288277f,-0.203959972f,-0.187735423f,-0.171605781f,-0.155562401f,-0.139596835f,-0.123700768f,-0.107866026f,-0.0920845717f,-0.0763484687f,-0.0606498569f,-0.044980973f,
-0.0293340944f,-0.0137015479f,0.00192430965f,0.0175511129f,0.0331864916f,0.0488381051f,0.0645136237f,0.0802207887f,0.0959673896f,0.111761294f,0.12761046f,0.143522963f,
0.159507021f,0.17557095f,0.191723272f,0.207972676f,0.224328041f,0.240798473f,0.25739333f,0.274122238f,0.290995061f,0.308022052f,0.32521373f,0.342581064f,
0.360135317f,0.377888292f,0.395852178f,0.414039671f,0.432464063f,0.451139152f,0.470079422f,0.489300042f,0.508816838f,0.52864641f,0.548806429f,0.569315135f,
0.59019208f,0.611457705f,0.63313359f,0.655242682f,0.677809179f,0.700858831f,0.724418998f,0.748518646f,0.77318871f,0.798462212f,0.824374378f,0.850962877f,
0.878268003f,0.906333029f,0.935204387f,0.964932144f,0.995570064f,1.02717638f,1.05981386f,1.09355056f,1.12846029f,1.16462326f,1.20212686f,1.24106646f,
1.28154624f,1.3236804f,1.36759436f,1.41342628f,1.46132839f,1.51146936f,1.56403613f,1.61923671f,1.67730319f,1.73849535f,1.80310512f,1.87146127f,
1.94393575f,2.02095103f,2.10298944f,2.19060254f,2.28442621f,2.38519645f,2.49376893f,2.61114597f,2.7385087f,2.87725878f,3.02907228f,3.19597101f,
3.3804152f,3.5854311f,3.8147819f,4.07320786f,4.36676407f,4.70331335f,5.09325027f,5.55061626f,6.09484434f,6.75362921f,7.56783533f,-1.00000002e+30f,
-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,
-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-7.40408278f,-6.62220192f,-5.9869895f,-5.46047688f,-5.01676178f,-4.63756418f,-4.30961609f,-4.0230546f,-3.77039385f,
-3.54585028f,-3.34488487f,-3.16388488f,-2.99993968f,-2.85067749f,-2.71414661f,-2.58872604f,-2.47305822f,-2.36599779f,-2.26657176f,-2.17394805f,-2.08741045f,
-2.00634027f,-1.93019891f,-1.85851622f,-1.79087973f,-1.72692573f,-1.66633284f,-1.60881531f,-1.55411887f,-1.50201619f,-1.45230305f,-1.40479636f,-1.35933065f,
-1.3157562f,-1.27393746f,-1.23375118f,-1.19508505f,-1.15783668f,-1.12191224f,-1.08722568f,-1.05369806f,-1.02125657f,-0.989834249f,-0.959369242f,-0.929804087f,
-0.901085794f,-0.873165011f,-0.845995903f,-0.819535732f,-0.793744743f,-0.768585682f,-0.74402374f,-0.720026374f,-0.696563005f,-0.673604906f,-0.651125133f,-0.629098117f,
-0.607500017f,-0.586308122f,-0.565500975f,-0.54505831f,-0.524960995f,-0.50519067f,-0.485730052f,-0.466562629f,-0.447672665f,-0.429045141f,-0.410665721f,-0.392520696f,
-0.374596894f,-0.356881678f,-0.339362979f,-0.322029084f,-0.304868758f,-0.287871182f,-0.271025807f,-0.254322529f,-0.237751484f,-0.22130309f,-0.20496808f,-0.188737363f,
-0.172602087f,-0.156553626f,-0.140583485f,-0.124683343f,-0.10884504f,-0.0930605158f,-0.0773218349f,-0.0616211258f,-0.0459506251f,-0.0303026065f,-0.014669396f,0.000956653908f,
0.0165831763f,0.0322178043f,0.0478681885f,0.0635420084f,0.0792469829f,0.0949909166f,0.110781655f,0.126627162f,0.142535523f,0.158514887f,0.17457363f,0.19072023f,
0.20696336f,0.223311901f,0.239774942f,0.256361812f,0.273082137f,0.289945751f,0.306962878f,0.324144065f,0.341500193f,0.359042555f,0.376782864f,0.39473331f,
0.412906587f,0.431315899f,0.449975073f,0.468898475f,0.488101274f,0.507599235f,0.527408957f,0.547547996f,0.568034589f,0.588888109f,0.610128999f,0.631778836f,
0.65386039f,0.67639786f,0.699416876f,0.722944558f,0.747009933f,0.771643758f,0.796878874f,0.82275039f,0.849295855f,0.876555383f,0.90457201f,0.933392048f,
0.963065207f,0.993645191f,1.02518976f,1.05776143f,1.09142792f,1.12626278f,1.16234565f,1.19976354f,1.23861134f,1.27899241f,1.3210206f,1.3648206f,
1.41052938f,1.45829868f,1.50829566f,1.56070638f,1.61573732f,1.67361915f,1.7346096f,1.79899859f,1.8671124f,1.93932009f,2.01604104f,2.09775281f,
2.18500328f,2.27842212f,2.37873864f,2.48680019f,2.60359979f,2.73030591f,2.86830521f,3.01925516f,3.18515325f,3.36842942f,3.57207084f,3.79978824f,
4.05625296f,4.34742689f,4.68104219f,5.06730986f,5.52000189f,6.05815029f,6.70882225f,7.51186466f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,
-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,
-7.45849371f,-6.66588879f,-6.02285194f,-5.49045753f,-5.04220819f,-4.65944195f,-4.32863569f,-4.03974915f,-3.78517199f,-3.55903006f,-3.35671735f,-3.17457199f,
-3.00964427f,-2.85953331f,-2.72226405f,-2.59619713f,-2.47996068f,-2.37239695f,-2.27252364f,-2.17950058f,-2.09260488f,-2.01121259f,-1.93478024f,-1.86283398f,
-1.794958f,-1.73078573f,-1.66999328f,-1.612293f,-1.55742872f,-1.50517142f,-1.45531595f,-1.40767753f,-1.36208987f,-1.31840241f,-1.27647865f,-1.23619461f,
-1.19743752f,-1.16010416f,-1.12410021f,-1.08933938f,-1.05574214f,-1.02323544f,-0.99175185f,-0.961229205f,-0.931609929f,-0.902840674f,-0.87487185f,-0.847657442f,
-0.821154594f,-0.795323253f,-0.770126045f,-0.745528102f,-0.721496701f,-0.698001146f,-0.675012529f,-0.652503908f,-0.630449593f,-0.608825564f,-0.587609112f,-0.566778779f,
-0.54631412f,-0.526195943f,-0.50640589f,-0.486926556f,-0.46774146f,-0.448834747f,-0.430191398f,-0.411797017f,-0.393637866f,-0.375700712f,-0.35797295f,-0.340442419f,
-0.323097408f,-0.305926681f,-0.2889193f,-0.272064805f,-0.255353034f,-0.238774061f,-0.222318351f,-0.205976576f,-0.189739659f,-0.173598737f,-0.157545134f,-0.141570389f,
-0.125666156f,-0.109824263f,-0.0940366387f,-0.0782953426f,-0.0625925139f,-0.0469203666f,-0.0312711783f,-0.0156372711f,-1.10000001e-05f,0.0156152714f,0.0312491748f,0.0468983613f,
0.0625705048f,0.0782733262f,0.0940146148f,0.109802231f,0.125644118f,0.141548336f,0.157523081f,0.173576653f,0.189717561f,0.205954462f,0.222296208f,0.238751888f,
0.255330831f,0.272042572f,0.288897038f,0.305904359f,0.323075086f,0.340420038f,0.357950509f,0.375678211f,0.393615305f,0.411774397f,0.430168688f,0.448811978f,
0.467718601f,0.486903638f,0.506382823f,0.526172817f,0.546290874f,0.566755354f,0.587585628f,0.608801901f,0.630425751f,0.652479887f,0.674988389f,0.697976768f,
0.721472144f,0.745503366f,0.77010107f,0.79529798f,0.821129024f,0.847631574f,0.874845684f,0.90281409f,0.931582987f,0.961201787f,0.991723955f,1.02320707f,
1.05571318f,1.08930981f,1.12407005f,1.16007316f,1.19740582f,1.23616207f,1.27644503f,1.31836772f,1.36205411f,1.40764046f,1.45527732f,1.50513124f,
1.55738676f,1.61224902f,1.66994703f,1.73073697f,1.79490638f,1.86277926f,1.93472183f,2.01114988f,2.09253764f,2.17942762f,2.27244449f,2.3723104f,
2.47986531f,2.59609175f,2.72214651f,2.85940146f,3.00949502f,3.17440176f,3.35652161f,3.55880237f,3.78490448f,4.0394311f,4.32825184f,4.65897226f,
5.04162264f,5.48971319f,6.02188349f,6.66459322f,7.45670128f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,
-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-7.51369572f,-6.71014261f,-6.05913496f,
-5.52075768f,-5.067904f,-4.68151855f,-4.34781551f,-4.05657482f,-3.8000586f,-3.57230067f,-3.36862707f,-3.18532467f,-3.01940536f,-2.86843824f,-2.7304244f,
-2.60370588f,-2.48689628f,-2.37882566f,-2.27850175f,-2.18507648f,-2.09782052f,-2.01610374f,-1.93937886f,-1.86716735f,-1.79905033f,-1.7346586f,-1.67366552f,
-1.61578143f,-1.56074846f,-1.50833595f,-1.45833731f,-1.41056657f,-1.36485648f,-1.32105541f,-1.27902615f,-1.238644f,-1.19979537f,-1.16237664f,-1.12629294f,
-1.09145749f,-1.0577904f,-1.02521813f,-0.993673086f,-0.963092685f,-0.933419049f,-0.904598594f,-0.876581609f,-0.849321723f,-0.82277602f,-0.796904147f,-0.771668732f,
-0.747034669f,-0.722969115f,-0.699441195f,-0.676422f,-0.653884411f,-0.631802678f,-0.610152662f,-0.588911593f,-0.568057954f,-0.547571242f,-0.527432144f,-0.507622242f,
-0.488124192f,-0.468921334f,-0.449997842f,-0.431338608f,-0.412929207f,-0.39475587f,-0.376805365f,-0.359064996f,-0.341522574f,-0.324166417f,-0.306985199f,-0.289968014f,
-0.27310437f,-0.256384015f,-0.239797115f,-0.223334044f,-0.206985489f,-0.190742329f,-0.174595714f,-0.158536956f,-0.142557576f,-0.126649216f,-0.110803686f,-0.095012933f,
-0.0792689994f,-0.0635640174f,-0.0478901938f,-0.0322398059f,-0.016605176f,-0.000978653901f,0.0146473963f,0.030280605f,0.0459286198f,0.0615991168f,0.0772998184f,0.0930384994f,
0.108823009f,0.124661304f,0.140561432f,0.156531557f,0.172580004f,0.188715264f,0.204945952f,0.221280947f,0.237729311f,0.254300326f,0.271003574f,0.28784892f,
0.304846466f,0.322006732f,0.339340597f,0.356859267f,0.374574393f,0.392498136f,0.410643101f,0.429022461f,0.447649896f,0.4665398f,0.485707134f,0.505167663f,
0.524937868f,0.545035064f,0.56547761f,0.586284578f,0.607476413f,0.629074335f,0.651101172f,0.673580825f,0.696538687f,0.720001817f,0.743999004f,0.768560648f,
0.793719471f,0.819510221f,0.845970035f,0.873138845f,0.90105927f,0.929777145f,0.959341824f,0.989806414f,1.02122819f,1.0536691f,1.08719611f,1.12188208f,
1.1578058f,1.19505346f,1.23371863f,1.27390385f,1.31572163f,1.35929489f,1.40475941f,1.45226467f,1.50197613f,1.55407703f,1.60877156f,1.66628683f,
1.72687721f,1.79082835f,1.85846162f,1.93014061f,2.0062778f,2.08734345f,2.17387533f,2.26649284f,2.36591172f,2.47296333f,2.58862114f,2.71403003f,
2.8505466f,2.99979186f,3.16371632f,3.3446908f,3.54562497f,3.7701292f,4.02273989f,4.309237f,4.63710022f,5.01618433f,5.45974445f,5.98603725f,
6.62093115f,7.40232801f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,
-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-7.56970644f,-6.75497484f,-6.09584618f,-5.55138397f,-5.093853f,-4.70379543f,
-4.36715746f,-4.07353306f,-3.81505513f,-3.58566332f,-3.38061476f,-3.1961441f,-3.02922392f,-2.87739253f,-2.73862791f,-2.61125278f,-2.49386525f,-2.38528395f,
-2.28450632f,-2.19067621f,-2.10305738f,-2.02101421f,-1.94399464f,-1.87151647f,-1.80315709f,-1.73854446f,-1.67734969f,-1.61928093f,-1.56407833f,-1.51150978f,
-1.46136713f,-1.41346359f,-1.36763036f,-1.32371509f,-1.28157985f,-1.24109912f,-1.20215869f,-1.16465425f,-1.12849057f,-1.09358013f,-1.05984282f,-1.02720487f,
-0.995598018f,-0.964959562f,-0.935231388f,-0.906359613f,-0.87829423f,-0.850988805f,-0.824400008f,-0.798487544f,-0.773213744f,-0.748543441f,-0.724443555f,-0.70088321f,
-0.677833319f,-0.655266643f,-0.633157372f,-0.611481369f,-0.590215623f,-0.56933856f,-0.548829675f,-0.528669596f,-0.508839846f,-0.48932299f,-0.47010228f,-0.451161921f,
-0.432486743f,-0.414062291f,-0.395874739f,-0.377910793f,-0.360157758f,-0.342603445f,-0.325236082f,-0.308044344f,-0.291017324f,-0.274144471f,-0.257415533f,-0.240820646f,
-0.224350184f,-0.207994789f,-0.191745371f,-0.175593033f,-0.15952909f,-0.143545017f,-0.127632499f,-0.111783326f,-0.0959894136f,-0.0802428052f,-0.0645356402f,-0.0488601103f,
-0.0332084969f,-0.0175731126f,-0.00194630958f,0.0136795482f,0.0293120928f,0.0449589677f,0.0606278479f,0.0763264522f,0.0920625553f,0.107844003f,0.123678729f,0.139574781f,
0.155540347f,0.171583697f,0.187713325f,0.203937858f,0.220266134f,0.236707196f,0.253270358f,0.269965142f,0.286801368f,0.303789198f,0.320939094f,0.338261873f,
0.35576874f,0.373471379f,0.39138183f,0.409512728f,0.427877158f,0.446488827f,0.465362042f,0.484511733f,0.503953636f,0.523704171f,0.543780625f,0.564201236f,
0.584985077f,0.606152415f,0.627724588f,0.649724126f,0.67217499f,0.695102513f,0.718533576f,0.742496789f,0.76702255f,0.792143404f,0.817893922f,0.844311237f,
0.871434927f,0.899307489f,0.927974582f,0.957485318f,0.987892568f,1.01925337f,1.05162919f,1.08508694f,1.11969888f,1.15554357f,1.19270647f,1.23128104f,
1.27136898f,1.3130821f,1.35654294f,1.40188611f,1.44926035f,1.49883008f,1.55077732f,1.60530484f,1.66263831f,1.72303033f,1.78676438f,1.85415959f,
1.92557657f,2.00142479f,2.08217001f,2.16834664f,2.26056743f,2.35954213f,2.46609449f,2.58118796f,2.70595598f,2.84174061f,2.99014449f,3.15309596f,
3.33293629f,3.5325377f,3.75546122f,4.00617838f,4.29037952f,4.61542368f,4.99099207f,5.43009043f,5.95060396f,6.57782459f,7.34872818f,-1.00000002e+30f,
-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,
-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-7.626544f,-6.8003974f};
static const float f_tan_hi[1025] = {
6.8003974f,7.626544f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,
1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,-7.34872818f,-6.57782459f,-5.95060396f,-5.43009043f,-4.99099207f,-4.61542368f,
-4.29037952f,-4.00617838f,-3.75546122f,-3.5325377f,-3.33293629f,-3.15309596f,-2.99014449f,-2.84174061f,-2.70595598f,-2.58118796f,-2.46609449f,-2.35954213f,
-2.26056743f,-2.16834664f,-2.08217001f,-2.00142479f,-1.92557657f,-1.85415959f,-1.78676438f,-1.72303033f,-1.66263831f,-1.60530484f,-1.55077732f,-1.49883008f,
-1.44926035f,-1.40188611f,-1.35654294f,-1.3130821f,-1.27136898f,-1.23128104f,-1.19270647f,-1.15554357f,-1.11969888f,-1.08508694f,-1.05162919f,-1.01925337f,
-0.987892568f,-0.957485318f,-0.927974582f,-0.899307489f,-0.871434927f,-0.844311237f,-0.817893922f,-0.792143404f,-0.76702255f,-0.742496789f,-0.718533576f,-0.695102513f,
-0.67217499f,-0.649724126f,-0.627724588f,-0.606152415f,-0.584985077f,-0.564201236f,-0.543780625f,-0.523704171f,-0.503953636f,-0.484511733f,-0.465362042f,-0.446488827f,
-0.427877158f,-0.409512728f,-0.39138183f,-0.373471379f,-0.35576874f,-0.338261873f,-0.320939094f,-0.303789198f,-0.286801368f,-0.269965142f,-0.253270358f,-0.236707196f,
-0.220266134f,-0.203937858f,-0.187713325f,-0.171583697f,-0.155540347f,-0.139574781f,-0.123678729f,-0.107844003f,-0.0920625553f,-0.0763264522f,-0.0606278479f,-0.0449589677f,
-0.0293120928f,-0.0136795482f,0.00194630958f,0.0175731126f,0.0332084969f,0.0488601103f,0.0645356402f,0.0802428052f,0.0959894136f,0.111783326f,0.127632499f,0.143545017f,
0.15952909f,0.175593033f,0.191745371f,0.207994789f,0.224350184f,0.240820646f,0.257415533f,0.274144471f,0.291017324f,0.308044344f,0.325236082f,0.342603445f,
0.360157758f,0.377910793f,0.395874739f,0.414062291f,0.432486743f,0.451161921f,0.47010228f,0.48932299f,0.508839846f,0.528669596f,0.548829675f,0.56933856f,
0.590215623f,0.611481369f,0.633157372f,0.655266643f,0.677833319f,0.70088321f,0.724443555f,0.748543441f,0.773213744f,0.798487544f,0.824400008f,0.850988805f,
0.87829423f,0.906359613f,0.935231388f,0.964959562f,0.995598018f,1.02720487f,1.05984282f,1.09358013f,1.12849057f,1.16465425f,1.20215869f,1.24109912f,
1.28157985f,1.32371509f,1.36763036f,1.41346359f,1.46136713f,1.51150978f,1.56407833f,1.61928093f,1.67734969f,1.73854446f,1.80315709f,1.87151647f,
1.94399464f,2.02101421f,2.10305738f,2.19067621f,2.28450632f,2.38528395f,2.49386525f,2.61125278f,2.73862791f,2.87739253f,3.02922392f,3.1961441f,
3.38061476f,3.58566332f,3.81505513f,4.07353306f,4.36715746f,4.70379543f,5.093853f,5.55138397f,6.09584618f,6.75497484f,7.56970644f,1.00000002e+30f,
1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,
1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,-7.40232801f,-6.62093115f,-5.98603725f,-5.45974445f,-5.01618433f,-4.63710022f,-4.309237f,-4.02273989f,-3.7701292f,
-3.54562497f,-3.3446908f,-3.16371632f,-2.99979186f,-2.8505466f,-2.71403003f,-2.58862114f,-2.47296333f,-2.36591172f,-2.26649284f,-2.17387533f,-2.08734345f,
-2.0062778f,-1.93014061f,-1.85846162f,-1.79082835f,-1.72687721f,-1.66628683f,-1.60877156f,-1.55407703f,-1.50197613f,-1.45226467f,-1.40475941f,-1.35929489f,
-1.31572163f,-1.27390385f,-1.23371863f,-1.19505346f,-1.1578058f,-1.12188208f,-1.08719611f,-1.0536691f,-1.02122819f,-0.989806414f,-0.959341824f,-0.929777145f,
-0.90105927f,-0.873138845f,-0.845970035f,-0.819510221f,-0.793719471f,-0.768560648f,-0.743999004f,-0.720001817f,-0.696538687f,-0.673580825f,-0.651101172f,-0.629074335f,
-0.607476413f,-0.586284578f,-0.56547761f,-0.545035064f,-0.524937868f,-0.505167663f,-0.485707134f,-0.4665398f,-0.447649896f,-0.429022461f,-0.410643101f,-0.392498136f,
-0.374574393f,-0.356859267f,-0.339340597f,-0.322006732f,-0.304846466f,-0.28784892f,-0.271003574f,-0.254300326f,-0.237729311f,-0.221280947f,-0.204945952f,-0.188715264f,
-0.172580004f,-0.156531557f,-0.140561432f,-0.124661304f,-0.108823009f,-0.0930384994f,-0.0772998184f,-0.0615991168f,-0.0459286198f,-0.030280605f,-0.0146473963f,0.000978653901f,
0.016605176f,0.0322398059f,0.0478901938f,0.0635640174f,0.0792689994f,0.095012933f,0.110803686f,0.126649216f,0.142557576f,0.158536956f,0.174595714f,0.190742329f,
0.206985489f,0.223334044f,0.239797115f,0.256384015f,0.27310437f,0.289968014f,0.306985199f,0.324166417f,0.341522574f,0.359064996f,0.376805365f,0.39475587f,
0.412929207f,0.431338608f,0.449997842f,0.468921334f,0.488124192f,0.507622242f,0.527432144f,0.547571242f,0.568057954f,0.588911593f,0.610152662f,0.631802678f,
0.653884411f,0.676422f,0.699441195f,0.722969115f,0.747034669f,0.771668732f,0.796904147f,0.82277602f,0.849321723f,0.876581609f,0.904598594f,0.933419049f,
0.963092685f,0.993673086f,1.02521813f,1.0577904f,1.09145749f,1.12629294f,1.16237664f,1.19979537f,1.238644f,1.27902615f,1.32105541f,1.36485648f,
1.41056657f,1.45833731f,1.50833595f,1.56074846f,1.61578143f,1.67366552f,1.7346586f,1.79905033f,1.86716735f,1.93937886f,2.01610374f,2.09782052f,
2.18507648f,2.27850175f,2.37882566f,2.48689628f,2.60370588f,2.7304244f,2.86843824f,3.01940536f,3.18532467f,3.36862707f,3.57230067f,3.8000586f,
4.05657482f,4.34781551f,4.68151855f,5.067904f,5.52075768f,6.05913496f,6.71014261f,7.51369572f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,
1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,
-7.45670128f,-6.66459322f,-6.02188349f,-5.48971319f,-5.04162264f,-4.65897226f,-4.32825184f,-4.0394311f,-3.78490448f,-3.55880237f,-3.35652161f,-3.17440176f,
-3.00949502f,-2.85940146f,-2.72214651f,-2.59609175f,-2.47986531f,-2.3723104f,-2.27244449f,-2.17942762f,-2.09253764f,-2.01114988f,-1.93472183f,-1.86277926f,
-1.79490638f,-1.73073697f,-1.66994703f,-1.61224902f,-1.55738676f,-1.50513124f,-1.45527732f,-1.40764046f,-1.36205411f,-1.31836772f,-1.27644503f,-1.23616207f,
-1.19740582f,-1.16007316f,-1.12407005f,-1.08930981f,-1.05571318f,-1.02320707f,-0.991723955f,-0.961201787f,-0.931582987f,-0.90281409f,-0.874845684f,-0.847631574f,
-0.821129024f,-0.79529798f,-0.77010107f,-0.745503366f,-0.721472144f,-0.697976768f,-0.674988389f,-0.652479887f,-0.630425751f,-0.608801901f,-0.587585628f,-0.566755354f,
-0.546290874f,-0.526172817f,-0.506382823f,-0.486903638f,-0.467718601f,-0.448811978f,-0.430168688f,-0.411774397f,-0.393615305f,-0.375678211f,-0.357950509f,-0.340420038f,
-0.323075086f,-0.305904359f,-0.288897038f,-0.272042572f,-0.255330831f,-0.238751888f,-0.222296208f,-0.205954462f,-0.189717561f,-0.173576653f,-0.157523081f,-0.141548336f,
-0.125644118f,-0.109802231f,-0.0940146148f,-0.0782733262f,-0.0625705048f,-0.0468983613f,-0.0312491748f,-0.0156152714f,1.10000001e-05f,0.0156372711f,0.0312711783f,0.0469203666f,
0.0625925139f,0.0782953426f,0.0940366387f,0.109824263f,0.125666156f,0.141570389f,0.157545134f,0.173598737f,0.189739659f,0.205976576f,0.222318351f,0.238774061f,
0.255353034f,0.272064805f,0.2889193f,0.305926681f,0.323097408f,0.340442419f,0.35797295f,0.375700712f,0.393637866f,0.411797017f,0.430191398f,0.448834747f,
0.46774146f,0.486926556f,0.50640589f,0.526195943f,0.54631412f,0.566778779f,0.587609112f,0.608825564f,0.630449593f,0.652503908f,0.675012529f,0.698001146f,
0.721496701f,0.745528102f,0.770126045f,0.795323253f,0.821154594f,0.847657442f,0.87487185f,0.902840674f,0.931609929f,0.961229205f,0.99175185f,1.02323544f,
1.05574214f,1.08933938f,1.12410021f,1.16010416f,1.19743752f,1.23619461f,1.27647865f,1.31840241f,1.36208987f,1.40767753f,1.45531595f,1.50517142f,
1.55742872f,1.612293f,1.66999328f,1.73078573f,1.794958f,1.86283398f,1.93478024f,2.01121259f,2.09260488f,2.17950058f,2.27252364f,2.37239695f,
2.47996068f,2.59619713f,2.72226405f,2.85953331f,3.00964427f,3.17457199f,3.35671735f,3.55903006f,3.78517199f,4.03974915f,4.32863569f,4.65944195f,
5.04220819f,5.49045753f,6.02285194f,6.66588879f,7.45849371f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,
1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,-7.51186466f,-6.70882225f,-6.05815029f,
-5.52000189f,-5.06730986f,-4.68104219f,-4.34742689f,-4.05625296f,-3.79978824f,-3.57207084f,-3.36842942f,-3.18515325f,-3.01925516f,-2.86830521f,-2.73030591f,
-2.60359979f,-2.48680019f,-2.37873864f,-2.27842212f,-2.18500328f,-2.09775281f,-2.01604104f,-1.93932009f,-1.8671124f,-1.79899859f,-1.7346096f,-1.67361915f,
-1.61573732f,-1.56070638f,-1.50829566f,-1.45829868f,-1.41052938f,-1.3648206f,-1.3210206f,-1.27899241f,-1.23861134f,-1.19976354f,-1.16234565f,-1.12626278f,
-1.09142792f,-1.05776143f,-1.02518976f,-0.993645191f,-0.963065207f,-0.933392048f,-0.90457201f,-0.876555383f,-0.849295855f,-0.82275039f,-0.796878874f,-0.771643758f,
-0.747009933f,-0.722944558f,-0.699416876f,-0.67639786f,-0.65386039f,-0.631778836f,-0.610128999f,-0.588888109f,-0.568034589f,-0.547547996f,-0.527408957f,-0.507599235f,
-0.488101274f,-0.468898475f,-0.449975073f,-0.431315899f,-0.412906587f,-0.39473331f,-0.376782864f,-0.359042555f,-0.341500193f,-0.324144065f,-0.306962878f,-0.289945751f,
-0.273082137f,-0.256361812f,-0.239774942f,-0.223311901f,-0.20696336f,-0.19072023f,-0.17457363f,-0.158514887f,-0.142535523f,-0.126627162f,-0.110781655f,-0.0949909166f,
-0.0792469829f,-0.0635420084f,-0.0478681885f,-0.0322178043f,-0.0165831763f,-0.000956653908f,0.014669396f,0.0303026065f,0.0459506251f,0.0616211258f,0.0773218349f,0.0930605158f,
0.10884504f,0.124683343f,0.140583485f,0.156553626f,0.172602087f,0.188737363f,0.20496808f,0.22130309f,0.237751484f,0.254322529f,0.271025807f,0.287871182f,
0.304868758f,0.322029084f,0.339362979f,0.356881678f,0.374596894f,0.392520696f,0.410665721f,0.429045141f,0.447672665f,0.466562629f,0.485730052f,0.50519067f,
0.524960995f,0.54505831f,0.565500975f,0.586308122f,0.607500017f,0.629098117f,0.651125133f,0.673604906f,0.696563005f,0.720026374f,0.74402374f,0.768585682f,
0.793744743f,0.819535732f,0.845995903f,0.873165011f,0.901085794f,0.929804087f,0.959369242f,0.989834249f,1.02125657f,1.05369806f,1.08722568f,1.12191224f,
1.15783668f,1.19508505f,1.23375118f,1.27393746f,1.3157562f,1.35933065f,1.40479636f,1.45230305f,1.50201619f,1.55411887f,1.60881531f,1.66633284f,
1.72692573f,1.79087973f,1.85851622f,1.93019891f,2.00634027f,2.08741045f,2.17394805f,2.26657176f,2.36599779f,2.47305822f,2.58872604f,2.71414661f,
2.85067749f,2.99993968f,3.16388488f,3.34488487f,3.54585028f,3.77039385f,4.0230546f,4.30961609f,4.63756418f,5.01676178f,5.46047688f,5.9869895f,
6.62220192f,7.40408278f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,
1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,-7.56783533f,-6.75362921f,-6.09484434f,-5.55061626f,-5.09325027f,-4.70331335f,
-4.36676407f,-4.07320786f,-3.8147819f,-3.5854311f,-3.3804152f,-3.19597101f,-3.02907228f,-2.87725878f,-2.7385087f,-2.61114597f,-2.49376893f,-2.38519645f,
-2.28442621f,-2.19060254f,-2.10298944f,-2.02095103f,-1.94393575f,-1.87146127f,-1.80310512f,-1.73849535f,-1.67730319f,-1.61923671f,-1.56403613f,-1.51146936f,
-1.46132839f,-1.41342628f,-1.36759436f,-1.3236804f,-1.28154624f,-1.24106646f,-1.20212686f,-1.16462326f,-1.12846029f,-1.09355056f,-1.05981386f,-1.02717638f,
-0.995570064f,-0.964932144f,-0.935204387f,-0.906333029f,-0.878268003f,-0.850962877f,-0.824374378f,-0.798462212f,-0.77318871f,-0.748518646f,-0.724418998f,-0.700858831f,
-0.677809179f,-0.655242682f,-0.63313359f,-0.611457705f,-0.59019208f,-0.569315135f,-0.548806429f,-0.52864641f,-0.508816838f,-0.489300042f,-0.470079422f,-0.451139152f,
-0.432464063f,-0.414039671f,-0.395852178f,-0.377888292f,-0.360135317f,-0.342581064f,-0.32521373f,-0.308022052f,-0.290995061f,-0.274122238f,-0.25739333f,-0.240798473f,
-0.224328041f,-0.207972676f,-0.191723272f,-0.17557095f,-0.159507021f,-0.143522963f,-0.12761046f,-0.111761294f,-0.0959673896f,-0.0802207887f,-0.0645136237f,-0.0488381051f,
-0.0331864916f,-0.0175511129f,-0.00192430965f,0.0137015479f,0.0293340944f,0.044980973f,0.0606498569f,0.0763484687f,0.0920845717f,0.107866026f,0.123700768f,0.139596835f,
0.155562401f,0.171605781f,0.187735423f,0.203959972f,0.220288277f,0.236729369f,0.253292531f,0.269987345f,0.28682363f,0.303811491f,0.320961416f,0.338284254f,
0.355791181f,0.37349385f,0.39140439f,0.409535348f,0.427899837f,0.446511596f,0.465384871f,0.484534681f,0.503976643f,0.523727298f,0.543803871f,0.564224541f,
0.585008562f,0.606176019f,0.62774837f,0.649748087f,0.67219913f,0.695126832f,0.718558073f,0.742521524f,0.767047524f,0.792168617f,0.817919493f,0.844337046f,
0.871461093f,0.899334013f,0.928001523f,0.957512677f,0.987920403f,1.01928163f,1.05165803f,1.08511639f,1.11972904f,1.15557444f,1.19273818f,1.23131347f,
1.27140248f,1.31311667f,1.35657859f,1.40192306f,1.44929874f,1.49887002f,1.55081904f,1.60534847f,1.6626842f,1.72307873f,1.78681564f,1.85421395f,
1.92563462f,2.00148678f,2.08223701f,2.16841865f,2.26064587f,2.35962772f,2.46618867f,2.58129215f,2.70607185f,2.84187055f,2.99029136f,3.15326333f,
3.33312869f,3.53276086f,3.75572348f,4.00648975f,4.29075432f,4.61588144f,4.99156141f,5.43081188f,5.95153999f,6.579072f,7.35044622f,1.00000002e+30f,
1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,
1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,-7.62463188f,-6.79902554f};
static const float f_tanc_lo[1025] = {
6.71640825f,7.52070951f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,
-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-7.4469614f,-6.65641737f,-6.01493359f,-5.48373699f,-5.03643084f,-4.65442038f,
-4.32422876f,-4.03584862f,-3.7816937f,-3.55590773f,-3.35389781f,-3.17201161f,-3.00730801f,-2.85739207f,-2.72029328f,-2.59437633f,-2.47827244f,-2.37082696f,
-2.27105904f,-2.17813015f,-2.09131956f,-2.01000404f,-1.9336412f,-1.86175811f,-1.79393959f,-1.72982001f,-1.66907573f,-1.6114198f,-1.55659628f,-1.50437665f,
-1.45455587f,-1.40694964f,-1.36139178f,-1.3177321f,-1.27583408f,-1.23557413f,-1.19683957f,-1.15952718f,-1.1235429f,-1.08880043f,-1.05522048f,-1.02272999f,
-0.991261661f,-0.960753381f,-0.931147635f,-0.902391136f,-0.874434352f,-0.847231269f,-0.82073915f,-0.794917941f,-0.76973033f,-0.745141447f,-0.721118629f,-0.69763118f,
-0.674650311f,-0.652148962f,-0.630101562f,-0.608484149f,-0.587273955f,-0.566449463f,-0.545990407f,-0.525877535f,-0.506092548f,-0.486618012f,-0.467437416f,-0.448534995f,
-0.429895729f,-0.411505193f,-0.393349648f,-0.375415951f,-0.357691437f,-0.340163946f,-0.322821826f,-0.305653781f,-0.288648963f,-0.271796823f,-0.255087256f,-0.23851037f,
-0.222056583f,-0.20571658f,-0.189481288f,-0.173341855f,-0.157289624f,-0.141316101f,-0.125412971f,-0.109572038f,-0.0937852561f,-0.0780446753f,-0.0623424388f,-0.046670761f,
-0.0310219228f,-0.0153882429f,0.000237924411f,0.0158642139f,0.0314982571f,0.0471476987f,0.062820226f,0.0785235539f,0.0942654684f,0.11005383f,0.125896603f,0.141801819f,
0.157777682f,0.173832536f,0.18997483f,0.206213266f,0.22255668f,0.239014164f,0.255595058f,0.272308916f,0.289165646f,0.306175381f,0.323348671f,0.340696365f,
0.358229786f,0.375960588f,0.393900931f,0.412063509f,0.430461496f,0.44910866f,0.468019426f,0.487208784f,0.506692588f,0.52648735f,0.546610534f,0.567080438f,
0.587916315f,0.609138608f,0.630768776f,0.652829587f,0.675345063f,0.698340833f,0.721844018f,0.745883405f,0.770489812f,0.795695901f,0.82153666f,0.848049462f,
0.87527442f,0.90325433f,0.932035327f,0.961667061f,0.992202878f,1.02370048f,1.05622208f,1.08983517f,1.12461281f,1.16063464f,1.19798708f,1.23676455f,
1.27707028f,1.31901729f,1.36272979f,1.40834427f,1.4560113f,1.50589776f,1.55818832f,1.61308861f,1.67082787f,1.73166251f,1.79588068f,1.86380661f,
1.93580735f,2.0122993f,2.09375715f,2.18072438f,2.27382684f,2.37378788f,2.48144865f,2.59779358f,2.72398162f,2.86138654f,3.01165056f,3.17675138f,
3.35909367f,3.56163073f,3.78803015f,4.04290438f,4.33213425f,4.66333866f,5.04656839f,5.49535656f,6.02837181f,6.67210913f,7.46546173f,-1.00000002e+30f,
-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,
-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-7.50201416f,-6.70056057f,-6.0511322f,-5.51397133f,-5.06207418f,-4.67645454f,-4.34337378f,-4.05264568f,-3.79655647f,
-3.56915784f,-3.36579013f,-3.18274951f,-3.01705623f,-2.86628556f,-2.72844362f,-2.6018765f,-2.48520041f,-2.37724876f,-2.27703094f,-2.18370056f,-2.0965302f,
-2.01489067f,-1.93823564f,-1.86608779f,-1.79802859f,-1.73368979f,-1.67274511f,-1.6149056f,-1.55991364f,-1.50753891f,-1.45757508f,-1.40983677f,-1.3641566f,
-1.32038343f,-1.27838004f,-1.23802209f,-1.19919598f,-1.16179836f,-1.12573445f,-1.09091747f,-1.05726767f,-1.02471173f,-0.993182003f,-0.962615967f,-0.932955921f,
-0.904148281f,-0.876143336f,-0.848894894f,-0.82235992f,-0.796498239f,-0.77127248f,-0.746647477f,-0.722590506f,-0.699070752f,-0.676059365f,-0.653529048f,-0.631454229f,
-0.609810829f,-0.588576078f,-0.567728281f,-0.547247231f,-0.527113438f,-0.507308662f,-0.48781538f,-0.468617052f,-0.449697852f,-0.431042671f,-0.412637144f,-0.394467443f,
-0.376520395f,-0.358783275f,-0.341243923f,-0.323890656f,-0.306712151f,-0.289697528f,-0.272836238f,-0.256118119f,-0.23953329f,-0.223072156f,-0.206725374f,-0.190483868f,
-0.174338758f,-0.158281356f,-0.142303213f,-0.126395956f,-0.110551409f,-0.0947615057f,-0.0790182948f,-0.0633139089f,-0.0476405658f,-0.0319905356f,-0.0163561385f,-0.000729726569f,
0.0148963332f,0.0305296741f,0.0461779423f,0.0618488118f,0.0775500089f,0.0932893082f,0.109074563f,0.124913722f,0.140814841f,0.156786099f,0.172835797f,0.188972443f,
0.205204666f,0.221541315f,0.237991467f,0.254564434f,0.271269798f,0.288117379f,0.305117339f,0.322280169f,0.339616746f,0.357138306f,0.374856561f,0.392783582f,
0.410932004f,0.429315031f,0.44794634f,0.466840327f,0.486012012f,0.505477071f,0.525252104f,0.545354426f,0.565802336f,0.586614966f,0.607812703f,0.629416943f,
0.651450396f,0.673937023f,0.696902275f,0.720373213f,0.744378507f,0.768948853f,0.794116795f,0.819917202f,0.846387267f,0.873566866f,0.901498735f,0.93022877f,
0.959806323f,0.990284503f,1.02172077f,1.05417705f,1.08772039f,1.12242377f,1.15836608f,1.19563341f,1.23431981f,1.27452767f,1.31636965f,1.3599689f,
1.40546131f,1.45299661f,1.5027405f,1.55487645f,1.60960865f,1.66716492f,1.72779989f,1.79179943f,1.85948563f,1.93122244f,2.00742316f,2.0885582f,
2.17516732f,2.26786971f,2.367383f,2.47454f,2.59031534f,2.71585631f,2.8525219f,3.00193596f,3.16605306f,3.34724808f,3.54843616f,3.77323508f,
4.0261898f,4.31309175f,4.64143419f,5.02109146f,5.46534061f,5.99246836f,6.62837696f,7.41100454f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,
-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,
-7.55787277f,-6.74528027f,-6.08775711f,-5.54453039f,-5.08797026f,-4.69868898f,-4.36268044f,-4.06957483f,-3.81152868f,-3.58249998f,-3.37775993f,-3.19355369f,
-3.02686167f,-2.8752284f,-2.73663712f,-2.60941434f,-2.49216175f,-2.38370013f,-2.28302932f,-2.18929482f,-2.10176206f,-2.01979661f,-1.94284737f,-1.87043309f,
-1.80213189f,-1.73757243f,-1.67642641f,-1.61840236f,-1.563241f,-1.51071036f,-1.46060288f,-1.41273177f,-1.3669287f,-1.32304144f,-1.28093231f,-1.24047577f,
-1.20155799f,-1.16407478f,-1.12793088f,-1.09303904f,-1.05931914f,-1.02669752f,-0.995106041f,-0.964482069f,-0.934767485f,-0.905908525f,-0.877855241f,-0.850561261f,
-0.823983252f,-0.79808104f,-0.772816896f,-0.748155653f,-0.724064469f,-0.70051229f,-0.677470207f,-0.654910862f,-0.632808566f,-0.611139119f,-0.589879692f,-0.569008529f,
-0.548505306f,-0.528350592f,-0.508525908f,-0.489013851f,-0.46979773f,-0.450861692f,-0.432190597f,-0.41377002f,-0.395586103f,-0.377625614f,-0.359875858f,-0.342324615f,
-0.324960142f,-0.307771146f,-0.290746659f,-0.27387619f,-0.257149518f,-0.240556702f,-0.224088177f,-0.207734585f,-0.191486806f,-0.175335974f,-0.159273401f,-0.143290594f,
-0.127379179f,-0.111530989f,-0.0957379341f,-0.0799920633f,-0.0642854944f,-0.0486104563f,-0.0329592042f,-0.0173240621f,-0.00169737882f,0.0139284804f,0.029561149f,0.0452082679f,
0.0608775169f,0.0765766129f,0.0923133194f,0.108095504f,0.123931095f,0.139828146f,0.155794814f,0.171839416f,0.187970415f,0.204196453f,0.220526382f,0.236969247f,
0.253534347f,0.270231187f,0.287069678f,0.304059893f,0.321212351f,0.338537842f,0.35604763f,0.373753339f,0.391667068f,0.409801394f,0.428169489f,0.446785033f,
0.46566233f,0.484816343f,0.504262805f,0.524018109f,0.544099629f,0.564525604f,0.585315049f,0.606488347f,0.628066778f,0.650072932f,0.67253077f,0.695465624f,
0.718904436f,0.742875814f,0.767410219f,0.792540193f,0.818300366f,0.844727814f,0.871862233f,0.899746239f,0.928425431f,0.957948983f,0.988369763f,1.01974499f,
1.05213618f,1.08561015f,1.12023938f,1.15610254f,1.19328523f,1.23188078f,1.27199137f,1.31372857f,1.35721529f,1.40258622f,1.44999039f,1.4995923f,
1.55157447f,1.60613954f,1.66351378f,1.72395015f,1.78773236f,1.85518014f,1.9266547f,2.00256586f,2.08338046f,2.16963339f,2.26193881f,2.36100721f,
2.46766424f,2.58287454f,2.70777345f,2.84370613f,2.99227786f,3.15542006f,3.33547902f,3.5353322f,3.75854778f,4.00960541f,4.29420757f,4.6197257f,
4.99586058f,5.43563986f,5.95697832f,6.58520174f,7.35732174f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,
-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-7.61455536f,-6.7905879f,-6.12481689f,
-5.57541943f,-5.11412239f,-4.72112656f,-4.38215113f,-4.08663797f,-3.82661176f,-3.59593511f,-3.38980865f,-3.20442486f,-3.03672457f,-2.88422155f,-2.744874f,
-2.61699057f,-2.49915671f,-2.3901813f,-2.28905416f,-2.19491243f,-2.10701513f,-2.02472162f,-1.94747639f,-1.87479413f,-1.8062495f,-1.74146831f,-1.68011963f,
-1.6219101f,-1.56657839f,-1.51389122f,-1.46363926f,-1.41563475f,-1.36970818f,-1.32570636f,-1.2834909f,-1.24293542f,-1.20392549f,-1.16635621f,-1.13013196f,
-1.09516501f,-1.06137478f,-1.02868712f,-0.997033775f,-0.966351628f,-0.936582327f,-0.907671869f,-0.879570067f,-0.85223031f,-0.825609207f,-0.799666226f,-0.774363637f,
-0.749666035f,-0.725540459f,-0.701955795f,-0.678882897f,-0.656294405f,-0.634164512f,-0.612468958f,-0.591184735f,-0.570290208f,-0.549764752f,-0.529588997f,-0.509744406f,
-0.490213454f,-0.470979482f,-0.452026546f,-0.433339477f,-0.41490379f,-0.396705598f,-0.378731668f,-0.360969216f,-0.343406022f,-0.326030314f,-0.308830768f,-0.291796416f,
-0.274916708f,-0.258181393f,-0.241580591f,-0.22510463f,-0.208744183f,-0.192490131f,-0.176333547f,-0.160265759f,-0.144278243f,-0.128362656f,-0.112510778f,-0.0967145413f,
-0.0809659734f,-0.0652572066f,-0.0495804362f,-0.0339279361f,-0.0182920191f,-0.00266503426f,0.0129606547f,0.0285926796f,0.0442386828f,0.0599063374f,0.0756033584f,0.0913375095f,
0.107116647f,0.122948699f,0.138841704f,0.154803813f,0.170843348f,0.186968759f,0.203188658f,0.219511896f,0.23594749f,0.252504736f,0.269193143f,0.286022574f,
0.303003103f,0.32014519f,0.337459654f,0.35495767f,0.372650892f,0.390551388f,0.408671707f,0.427024931f,0.445624739f,0.464485377f,0.483621806f,0.503049672f,
0.522785366f,0.542846203f,0.563250244f,0.584016621f,0.605165541f,0.626718223f,0.648697257f,0.671126366f,0.694030941f,0.717437685f,0.741375208f,0.765873849f,
0.790965915f,0.816686034f,0.843071043f,0.87016052f,0.897996783f,0.926625311f,0.956095099f,0.986458719f,1.01777303f,1.05009937f,1.08350432f,1.11805987f,
1.15384412f,1.19094253f,1.22944772f,1.26946127f,1.3110944f,1.35446882f,1.399719f,1.44699264f,1.4964534f,1.54828238f,1.60268128f,1.65987444f,
1.72011328f,1.78367937f,1.85089016f,1.92210388f,1.99772727f,2.07822371f,2.16412258f,2.25603366f,2.35466075f,2.46082115f,2.57547069f,2.69973302f,
2.83493876f,2.98267531f,3.14485168f,3.32378578f,3.52231741f,3.74396658f,3.9931488f,4.27547932f,4.59820986f,4.97087193f,5.40625f,5.92189455f,
6.5425725f,7.30439663f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,
-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-7.67208004f,-6.8364954f,-6.16231871f,-5.60664368f,-5.14053488f,-4.74377012f,
-4.40178728f,-4.10383701f,-3.84180713f,-3.60946393f,-3.40193653f,-3.21536374f,-3.04664564f,-2.89326477f,-2.75315499f,-2.62460494f,-2.50618553f,-2.39669251f,
-2.29510593f,-2.20055413f,-2.11228967f,-2.02966619f,-1.95212305f,-1.87917101f,-1.81038153f,-1.7453773f,-1.6838249f,-1.62542892f,-1.56992602f,-1.51708138f,
-1.46668422f,-1.4185456f,-1.37249494f,-1.3283782f,-1.2860558f,-1.24540102f,-1.20629847f,-1.16864288f,-1.13233793f,-1.09729552f,-1.0634346f,-1.03068078f,
-0.998965204f,-0.968224645f,-0.938400447f,-0.909438312f,-0.881287813f,-0.853902161f,-0.827237725f,-0.801253915f,-0.775912702f,-0.751178622f,-0.727018535f,-0.703401208f,
-0.680297434f,-0.657679737f,-0.635522187f,-0.613800406f,-0.592491329f,-0.571573257f,-0.551025569f,-0.530828655f,-0.510964096f,-0.491414219f,-0.472162306f,-0.453192413f,
-0.43448931f,-0.416038454f,-0.397825956f,-0.379838496f,-0.362063318f,-0.344488144f,-0.327101141f,-0.309891015f,-0.292846739f,-0.275957763f,-0.259213805f,-0.242604941f,
-0.226121545f,-0.209754199f,-0.193493813f,-0.177331448f,-0.161258414f,-0.145266175f,-0.129346371f,-0.113490783f,-0.0976913348f,-0.0819400474f,-0.0662290379f,-0.050550513f,
-0.0348967351f,-0.0192600116f,-0.00363269472f,0.0119928531f,0.0276242625f,0.0432691798f,0.058935266f,0.0746302456f,0.0903618708f,0.106137991f,0.121966533f,0.13785553f,
0.153813124f,0.169847623f,0.18596746f,0.20218125f,0.218497828f,0.234926194f,0.251475632f,0.268155664f,0.284976035f,0.301946908f,0.319078684f,0.336382151f,
0.353868484f,0.371549278f,0.389436543f,0.407542884f,0.425881296f,0.444465429f,0.463309497f,0.482428402f,0.50183773f,0.521553874f,0.541594088f,0.561976314f,
0.582719684f,0.603844285f,0.625371337f,0.647323251f,0.669723809f,0.692598164f,0.71597302f,0.739876807f,0.764339745f,0.78939414f,0.815074265f,0.841417015f,
0.868461609f,0.896250367f,0.92482847f,0.954244614f,0.984551311f,1.01580501f,1.04806685f,1.0814029f,1.11588502f,1.15159082f,1.18860519f,1.22702038f,
1.26693738f,1.30846679f,1.35172963f,1.39685941f,1.44400322f,1.49332345f,1.5450002f,1.59923363f,1.65624678f,1.71628904f,1.77964032f,1.84661543f,
1.91756999f,1.99290752f,2.07308745f,2.15863514f,2.2501545f,2.3483429f,2.45401073f,2.56810379f,2.69173455f,2.82621932f,2.97312784f,3.13434768f,
3.31216741f,3.50939107f,3.72949076f,3.97681904f,4.25690556f,4.57688427f,4.94612265f,5.37716579f,5.88721037f,6.50047874f,7.252213f,-1.00000002e+30f,
-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,
-1.00000002e+30f,-1.00000002e+30f,-1.00000002e+30f,-7.73046637f,-6.88301468f};
static const float f_tanc_hi[1025] = {
6.88301468f,7.73046637f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,
1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,-7.252213f,-6.50047874f,-5.88721037f,-5.37716579f,-4.94612265f,-4.57688427f,
-4.25690556f,-3.97681904f,-3.72949076f,-3.50939107f,-3.31216741f,-3.13434768f,-2.97312784f,-2.82621932f,-2.69173455f,-2.56810379f,-2.45401073f,-2.3483429f,
-2.2501545f,-2.15863514f,-2.07308745f,-1.99290752f,-1.91756999f,-1.84661543f,-1.77964032f,-1.71628904f,-1.65624678f,-1.59923363f,-1.5450002f,-1.49332345f,
-1.44400322f,-1.39685941f,-1.35172963f,-1.30846679f,-1.26693738f,-1.22702038f,-1.18860519f,-1.15159082f,-1.11588502f,-1.0814029f,-1.04806685f,-1.01580501f,
-0.984551311f,-0.954244614f,-0.92482847f,-0.896250367f,-0.868461609f,-0.841417015f,-0.815074265f,-0.78939414f,-0.764339745f,-0.739876807f,-0.71597302f,-0.692598164f,
-0.669723809f,-0.647323251f,-0.625371337f,-0.603844285f,-0.582719684f,-0.561976314f,-0.541594088f,-0.521553874f,-0.50183773f,-0.482428402f,-0.463309497f,-0.444465429f,
-0.425881296f,-0.407542884f,-0.389436543f,-0.371549278f,-0.353868484f,-0.336382151f,-0.319078684f,-0.301946908f,-0.284976035f,-0.268155664f,-0.251475632f,-0.234926194f,
-0.218497828f,-0.20218125f,-0.18596746f,-0.169847623f,-0.153813124f,-0.13785553f,-0.121966533f,-0.106137991f,-0.0903618708f,-0.0746302456f,-0.058935266f,-0.0432691798f,
-0.0276242625f,-0.0119928531f,0.00363269472f,0.0192600116f,0.0348967351f,0.050550513f,0.0662290379f,0.0819400474f,0.0976913348f,0.113490783f,0.129346371f,0.145266175f,
0.161258414f,0.177331448f,0.193493813f,0.209754199f,0.226121545f,0.242604941f,0.259213805f,0.275957763f,0.292846739f,0.309891015f,0.327101141f,0.344488144f,
0.362063318f,0.379838496f,0.397825956f,0.416038454f,0.43448931f,0.453192413f,0.472162306f,0.491414219f,0.510964096f,0.530828655f,0.551025569f,0.571573257f,
0.592491329f,0.613800406f,0.635522187f,0.657679737f,0.680297434f,0.703401208f,0.727018535f,0.751178622f,0.775912702f,0.801253915f,0.827237725f,0.853902161f,
0.881287813f,0.909438312f,0.938400447f,0.968224645f,0.998965204f,1.03068078f,1.0634346f,1.09729552f,1.13233793f,1.16864288f,1.20629847f,1.24540102f,
1.2860558f,1.3283782f,1.37249494f,1.4185456f,1.46668422f,1.51708138f,1.56992602f,1.62542892f,1.6838249f,1.7453773f,1.81038153f,1.87917101f,
1.95212305f,2.02966619f,2.11228967f,2.20055413f,2.29510593f,2.39669251f,2.50618553f,2.62460494f,2.75315499f,2.89326477f,3.04664564f,3.21536374f,
3.40193653f,3.60946393f,3.84180713f,4.10383701f,4.40178728f,4.74377012f,5.14053488f,5.60664368f,6.16231871f,6.8364954f,7.67208004f,1.00000002e+30f,
1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,
1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,-7.30439663f,-6.5425725f,-5.92189455f,-5.40625f,-4.97087193f,-4.59820986f,-4.27547932f,-3.9931488f,-3.74396658f,
-3.52231741f,-3.32378578f,-3.14485168f,-2.98267531f,-2.83493876f,-2.69973302f,-2.57547069f,-2.46082115f,-2.35466075f,-2.25603366f,-2.16412258f,-2.07822371f,
-1.99772727f,-1.92210388f,-1.85089016f,-1.78367937f,-1.72011328f,-1.65987444f,-1.60268128f,-1.54828238f,-1.4964534f,-1.44699264f,-1.399719f,-1.35446882f,
-1.3110944f,-1.26946127f,-1.22944772f,-1.19094253f,-1.15384412f,-1.11805987f,-1.08350432f,-1.05009937f,-1.01777303f,-0.986458719f,-0.956095099f,-0.926625311f,
-0.897996783f,-0.87016052f,-0.843071043f,-0.816686034f,-0.790965915f,-0.765873849f,-0.741375208f,-0.717437685f,-0.694030941f,-0.671126366f,-0.648697257f,-0.626718223f,
-0.605165541f,-0.584016621f,-0.563250244f,-0.542846203f,-0.522785366f,-0.503049672f,-0.483621806f,-0.464485377f,-0.445624739f,-0.427024931f,-0.408671707f,-0.390551388f,
-0.372650892f,-0.35495767f,-0.337459654f,-0.32014519f,-0.303003103f,-0.286022574f,-0.269193143f,-0.252504736f,-0.23594749f,-0.219511896f,-0.203188658f,-0.186968759f,
-0.170843348f,-0.154803813f,-0.138841704f,-0.122948699f,-0.107116647f,-0.0913375095f,-0.0756033584f,-0.0599063374f,-0.0442386828f,-0.0285926796f,-0.0129606547f,0.00266503426f,
0.0182920191f,0.0339279361f,0.0495804362f,0.0652572066f,0.0809659734f,0.0967145413f,0.112510778f,0.128362656f,0.144278243f,0.160265759f,0.176333547f,0.192490131f,
0.208744183f,0.22510463f,0.241580591f,0.258181393f,0.274916708f,0.291796416f,0.308830768f,0.326030314f,0.343406022f,0.360969216f,0.378731668f,0.396705598f,
0.41490379f,0.433339477f,0.452026546f,0.470979482f,0.490213454f,0.509744406f,0.529588997f,0.549764752f,0.570290208f,0.591184735f,0.612468958f,0.634164512f,
0.656294405f,0.678882897f,0.701955795f,0.725540459f,0.749666035f,0.774363637f,0.799666226f,0.825609207f,0.85223031f,0.879570067f,0.907671869f,0.936582327f,
0.966351628f,0.997033775f,1.02868712f,1.06137478f,1.09516501f,1.13013196f,1.16635621f,1.20392549f,1.24293542f,1.2834909f,1.32570636f,1.36970818f,
1.41563475f,1.46363926f,1.51389122f,1.56657839f,1.6219101f,1.68011963f,1.74146831f,1.8062495f,1.87479413f,1.94747639f,2.02472162f,2.10701513f,
2.19491243f,2.28905416f,2.3901813f,2.49915671f,2.61699057f,2.744874f,2.88422155f,3.03672457f,3.20442486f,3.38980865f,3.59593511f,3.82661176f,
4.08663797f,4.38215113f,4.72112656f,5.11412239f,5.57541943f,6.12481689f,6.7905879f,7.61455536f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,
1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,
-7.35732174f,-6.58520174f,-5.95697832f,-5.43563986f,-4.99586058f,-4.6197257f,-4.29420757f,-4.00960541f,-3.75854778f,-3.5353322f,-3.33547902f,-3.15542006f,
-2.99227786f,-2.84370613f,-2.70777345f,-2.58287454f,-2.46766424f,-2.36100721f,-2.26193881f,-2.16963339f,-2.08338046f,-2.00256586f,-1.9266547f,-1.85518014f,
-1.78773236f,-1.72395015f,-1.66351378f,-1.60613954f,-1.55157447f,-1.4995923f,-1.44999039f,-1.40258622f,-1.35721529f,-1.31372857f,-1.27199137f,-1.23188078f,
-1.19328523f,-1.15610254f,-1.12023938f,-1.08561015f,-1.05213618f,-1.01974499f,-0.988369763f,-0.957948983f,-0.928425431f,-0.899746239f,-0.871862233f,-0.844727814f,
-0.818300366f,-0.792540193f,-0.767410219f,-0.742875814f,-0.718904436f,-0.695465624f,-0.67253077f,-0.650072932f,-0.628066778f,-0.606488347f,-0.585315049f,-0.564525604f,
-0.544099629f,-0.524018109f,-0.504262805f,-0.484816343f,-0.46566233f,-0.446785033f,-0.428169489f,-0.409801394f,-0.391667068f,-0.373753339f,-0.35604763f,-0.338537842f,
-0.321212351f,-0.304059893f,-0.287069678f,-0.270231187f,-0.253534347f,-0.236969247f,-0.220526382f,-0.204196453f,-0.187970415f,-0.171839416f,-0.155794814f,-0.139828146f,
-0.123931095f,-0.108095504f,-0.0923133194f,-0.0765766129f,-0.0608775169f,-0.0452082679f,-0.029561149f,-0.0139284804f,0.00169737882f,0.0173240621f,0.0329592042f,0.0486104563f,
0.0642854944f,0.0799920633f,0.0957379341f,0.111530989f,0.127379179f,0.143290594f,0.159273401f,0.175335974f,0.191486806f,0.207734585f,0.224088177f,0.240556702f,
0.257149518f,0.27387619f,0.290746659f,0.307771146f,0.324960142f,0.342324615f,0.359875858f,0.377625614f,0.395586103f,0.41377002f,0.432190597f,0.450861692f,
0.46979773f,0.489013851f,0.508525908f,0.528350592f,0.548505306f,0.569008529f,0.589879692f,0.611139119f,0.632808566f,0.654910862f,0.677470207f,0.70051229f,
0.724064469f,0.748155653f,0.772816896f,0.79808104f,0.823983252f,0.850561261f,0.877855241f,0.905908525f,0.934767485f,0.964482069f,0.995106041f,1.02669752f,
1.05931914f,1.09303904f,1.12793088f,1.16407478f,1.20155799f,1.24047577f,1.28093231f,1.32304144f,1.3669287f,1.41273177f,1.46060288f,1.51071036f,
1.563241f,1.61840236f,1.67642641f,1.73757243f,1.80213189f,1.87043309f,1.94284737f,2.01979661f,2.10176206f,2.18929482f,2.28302932f,2.38370013f,
2.49216175f,2.60941434f,2.73663712f,2.8752284f,3.02686167f,3.19355369f,3.37775993f,3.58249998f,3.81152868f,4.06957483f,4.36268044f,4.69868898f,
5.08797026f,5.54453039f,6.08775711f,6.74528027f,7.55787277f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,
1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,-7.41100454f,-6.62837696f,-5.99246836f,
-5.46534061f,-5.02109146f,-4.64143419f,-4.31309175f,-4.0261898f,-3.77323508f,-3.54843616f,-3.34724808f,-3.16605306f,-3.00193596f,-2.8525219f,-2.71585631f,
-2.59031534f,-2.47454f,-2.367383f,-2.26786971f,-2.17516732f,-2.0885582f,-2.00742316f,-1.93122244f,-1.85948563f,-1.79179943f,-1.72779989f,-1.66716492f,
-1.60960865f,-1.55487645f,-1.5027405f,-1.45299661f,-1.40546131f,-1.3599689f,-1.31636965f,-1.27452767f,-1.23431981f,-1.19563341f,-1.15836608f,-1.12242377f,
-1.08772039f,-1.05417705f,-1.02172077f,-0.990284503f,-0.959806323f,-0.93022877f,-0.901498735f,-0.873566866f,-0.846387267f,-0.819917202f,-0.794116795f,-0.768948853f,
-0.744378507f,-0.720373213f,-0.696902275f,-0.673937023f,-0.651450396f,-0.629416943f,-0.607812703f,-0.586614966f,-0.565802336f,-0.545354426f,-0.525252104f,-0.505477071f,
-0.486012012f,-0.466840327f,-0.44794634f,-0.429315031f,-0.410932004f,-0.392783582f,-0.374856561f,-0.357138306f,-0.339616746f,-0.322280169f,-0.305117339f,-0.288117379f,
-0.271269798f,-0.254564434f,-0.237991467f,-0.221541315f,-0.205204666f,-0.188972443f,-0.172835797f,-0.156786099f,-0.140814841f,-0.124913722f,-0.109074563f,-0.0932893082f,
-0.0775500089f,-0.0618488118f,-0.0461779423f,-0.0305296741f,-0.0148963332f,0.000729726569f,0.0163561385f,0.0319905356f,0.0476405658f,0.0633139089f,0.0790182948f,0.0947615057f,
0.110551409f,0.126395956f,0.142303213f,0.158281356f,0.174338758f,0.190483868f,0.206725374f,0.223072156f,0.23953329f,0.256118119f,0.272836238f,0.289697528f,
0.306712151f,0.323890656f,0.341243923f,0.358783275f,0.376520395f,0.394467443f,0.412637144f,0.431042671f,0.449697852f,0.468617052f,0.48781538f,0.507308662f,
0.527113438f,0.547247231f,0.567728281f,0.588576078f,0.609810829f,0.631454229f,0.653529048f,0.676059365f,0.699070752f,0.722590506f,0.746647477f,0.77127248f,
0.796498239f,0.82235992f,0.848894894f,0.876143336f,0.904148281f,0.932955921f,0.962615967f,0.993182003f,1.02471173f,1.05726767f,1.09091747f,1.12573445f,
1.16179836f,1.19919598f,1.23802209f,1.27838004f,1.32038343f,1.3641566f,1.40983677f,1.45757508f,1.50753891f,1.55991364f,1.6149056f,1.67274511f,
1.73368979f,1.79802859f,1.86608779f,1.93823564f,2.01489067f,2.0965302f,2.18370056f,2.27703094f,2.37724876f,2.48520041f,2.6018765f,2.72844362f,
2.86628556f,3.01705623f,3.18274951f,3.36579013f,3.56915784f,3.79655647f,4.05264568f,4.34337378f,4.67645454f,5.06207418f,5.51397133f,6.0511322f,
6.70056057f,7.50201416f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,
1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,-7.46546173f,-6.67210913f,-6.02837181f,-5.49535656f,-5.04656839f,-4.66333866f,
-4.33213425f,-4.04290438f,-3.78803015f,-3.56163073f,-3.35909367f,-3.17675138f,-3.01165056f,-2.86138654f,-2.72398162f,-2.59779358f,-2.48144865f,-2.37378788f,
-2.27382684f,-2.18072438f,-2.09375715f,-2.0122993f,-1.93580735f,-1.86380661f,-1.79588068f,-1.73166251f,-1.67082787f,-1.61308861f,-1.55818832f,-1.50589776f,
-1.4560113f,-1.40834427f,-1.36272979f,-1.31901729f,-1.27707028f,-1.23676455f,-1.19798708f,-1.16063464f,-1.12461281f,-1.08983517f,-1.05622208f,-1.02370048f,
-0.992202878f,-0.961667061f,-0.932035327f,-0.90325433f,-0.87527442f,-0.848049462f,-0.82153666f,-0.795695901f,-0.770489812f,-0.745883405f,-0.721844018f,-0.698340833f,
-0.675345063f,-0.652829587f,-0.630768776f,-0.609138608f,-0.587916315f,-0.567080438f,-0.546610534f,-0.52648735f,-0.506692588f,-0.487208784f,-0.468019426f,-0.44910866f,
-0.430461496f,-0.412063509f,-0.393900931f,-0.375960588f,-0.358229786f,-0.340696365f,-0.323348671f,-0.306175381f,-0.289165646f,-0.272308916f,-0.255595058f,-0.239014164f,
-0.22255668f,-0.206213266f,-0.18997483f,-0.173832536f,-0.157777682f,-0.141801819f,-0.125896603f,-0.11005383f,-0.0942654684f,-0.0785235539f,-0.062820226f,-0.0471476987f,
-0.0314982571f,-0.0158642139f,-0.000237924411f,0.0153882429f,0.0310219228f,0.046670761f,0.0623424388f,0.0780446753f,0.0937852561f,0.109572038f,0.125412971f,0.141316101f,
0.157289624f,0.173341855f,0.189481288f,0.20571658f,0.222056583f,0.23851037f,0.255087256f,0.271796823f,0.288648963f,0.305653781f,0.322821826f,0.340163946f,
0.357691437f,0.375415951f,0.393349648f,0.411505193f,0.429895729f,0.448534995f,0.467437416f,0.486618012f,0.506092548f,0.525877535f,0.545990407f,0.566449463f,
0.587273955f,0.608484149f,0.630101562f,0.652148962f,0.674650311f,0.69763118f,0.721118629f,0.745141447f,0.76973033f,0.794917941f,0.82073915f,0.847231269f,
0.874434352f,0.902391136f,0.931147635f,0.960753381f,0.991261661f,1.02272999f,1.05522048f,1.08880043f,1.1235429f,1.15952718f,1.19683957f,1.23557413f,
1.27583408f,1.3177321f,1.36139178f,1.40694964f,1.45455587f,1.50437665f,1.55659628f,1.6114198f,1.66907573f,1.72982001f,1.79393959f,1.86175811f,
1.9336412f,2.01000404f,2.09131956f,2.17813015f,2.27105904f,2.37082696f,2.47827244f,2.59437633f,2.72029328f,2.85739207f,3.00730801f,3.17201161f,
3.35389781f,3.55590773f,3.7816937f,4.03584862f,4.32422876f,4.65442038f,5.03643084f,5.48373699f,6.01493359f,6.65641737f,7.4469614f,1.00000002e+30f,
1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,
1.00000002e+30f,1.00000002e+30f,1.00000002e+30f,-7.52070951f,-6.71640825f};
static const float f_pow2_lo[1025] = {
1.52587281e-05f,1.55928501e-05f,1.5934289e-05f,1.62832057e-05f,1.66397604e-05f,1.70041239e-05f,1.73764656e-05f,1.77569618e-05f,1.81457872e-05f,1.8543129e-05f,1.89491711e-05f,1.93641026e-05f,
1.97881218e-05f,2.02214251e-05f,2.06642162e-05f,2.11167044e-05f,2.15791006e-05f,2.20516213e-05f,2.25344884e-05f,2.30279293e-05f,2.3532175e-05f,2.40474637e-05f,2.45740339e-05f,2.51121346e-05f,
2.56620187e-05f,2.62239446e-05f,2.67981741e-05f,2.73849782e-05f,2.79846299e-05f,2.85974147e-05f,2.92236164e-05f,2.98635296e-05f,3.05174563e-05f,3.11857002e-05f,3.18685779e-05f,3.25664114e-05f,
3.32795207e-05f,3.40082479e-05f,3.47529312e-05f,3.55139236e-05f,3.62915744e-05f,3.70862581e-05f,3.78983423e-05f,3.87282053e-05f,3.95762436e-05f,4.04428501e-05f,4.13284324e-05f,4.22334087e-05f,
4.31582012e-05f,4.41032425e-05f,4.50689768e-05f,4.60558585e-05f,4.70643499e-05f,4.80949275e-05f,4.91480678e-05f,5.02242692e-05f,5.13240375e-05f,5.24478892e-05f,5.35963482e-05f,5.47699565e-05f,
5.59692598e-05f,5.71948294e-05f,5.84472327e-05f,5.97270591e-05f,6.10349125e-05f,6.23714004e-05f,6.37371559e-05f,6.51328228e-05f,6.65590414e-05f,6.80164958e-05f,6.95058625e-05f,7.10278473e-05f,
7.25831487e-05f,7.41725162e-05f,7.57966845e-05f,7.74564105e-05f,7.91524872e-05f,8.08857003e-05f,8.26568648e-05f,8.44668175e-05f,8.63164023e-05f,8.82064851e-05f,9.01379535e-05f,9.21117171e-05f,
9.41286999e-05f,9.6189855e-05f,9.82961355e-05f,0.000100448538f,0.000102648075f,0.000104895778f,0.000107192696f,0.000109539913f,0.00011193852f,0.000114389659f,0.000116894465f,0.000119454118f,
0.000122069825f,0.000124742801f,0.000127474312f,0.000130265646f,0.000133118083f,0.000136032992f,0.000139011725f,0.000142055695f,0.000145166297f,0.000148345032f,0.000151593369f,0.000154912821f,
0.000158304974f,0.000161771401f,0.00016531373f,0.000168933635f,0.000172632805f,0.00017641297f,0.000180275907f,0.000184223434f,0.0001882574f,0.00019237971f,0.000196592271f,0.000200897077f,
0.00020529615f,0.000209791557f,0.000214385393f,0.000219079826f,0.000223877039f,0.000228779318f,0.000233788931f,0.000238908236f,0.00024413965f,0.000249485602f,0.000254948623f,0.000260531291f,
0.000266236166f,0.000272065983f,0.00027802345f,0.000284111389f,0.000290332595f,0.000296690065f,0.000303186738f,0.000309825642f,0.000316609949f,0.000323542801f,0.000330627459f,0.00033786727f,
0.000345265609f,0.00035282594f,0.000360551814f,0.000368446868f,0.000376514799f,0.00038475942f,0.000393184542f,0.000401794154f,0.0004105923f,0.000419583113f,0.000428770785f,0.000438159652f,
0.000447754079f,0.000457558635f,0.000467577862f,0.000477816473f,0.0004882793f,0.000498971203f,0.000509897247f,0.000521062582f,0.000532472332f,0.000544131966f,0.0005560469f,0.000568222778f,
0.00058066519f,0.000593380129f,0.000606373476f,0.000619651284f,0.000633219897f,0.000647085602f,0.000661254919f,0.00067573454f,0.000690531218f,0.000705651881f,0.000721103628f,0.000736893737f,
0.000753029599f,0.00076951884f,0.000786369084f,0.000803588307f,0.0008211846f,0.000839166227f,0.00085754157f,0.000876319304f,0.000895508158f,0.000915117271f,0.000935155724f,0.000955632946f,
0.0009765586f,0.000997942407f,0.00101979449f,0.00104212516f,0.00106494466f,0.00108826393f,0.0011120938f,0.00113644556f,0.00116133038f,0.00118676026f,0.00121274695f,0.00123930257f,
0.00126643979f,0.0012941712f,0.00132250984f,0.00135146908f,0.00138106244f,0.00141130376f,0.00144220726f,0.00147378747f,0.0015060592f,0.00153903768f,0.00157273817f,0.00160717661f,
0.0016423692f,0.00167833245f,0.00171508314f,0.00175263861f,0.00179101632f,0.00183023454f,0.00187031145f,0.00191126589f,0.0019531172f,0.00199588481f,0.00203958899f,0.00208425033f,
0.00212988933f,0.00217652787f,0.0022241876f,0.00227289111f,0.00232266076f,0.00237352052f,0.00242549391f,0.00247860514f,0.00253287959f,0.00258834241f,0.00264501967f,0.00270293816f,
0.00276212487f,0.00282260752f,0.00288441451f,0.00294757495f,0.0030121184f,0.00307807536f,0.00314547634f,0.00321435323f,0.0032847384f,0.00335666491f,0.00343016628f,0.00350527721f,
0.00358203263f,0.00366046908f,0.00374062289f,0.00382253178f,0.0039062344f,0.00399176963f,0.00407917798f,0.00416850066f,0.00425977865f,0.00435305573f,0.0044483752f,0.00454578223f,
0.00464532152f,0.00474704104f,0.00485098781f,0.00495721027f,0.00506575918f,0.00517668482f,0.00529003935f,0.00540587632f,0.00552424975f,0.00564521505f,0.00576882903f,0.00589514989f,
0.00602423679f,0.00615615072f,0.00629095268f,0.00642870646f,0.0065694768f,0.00671332981f,0.00686033256f,0.00701055443f,0.00716406526f,0.00732093817f,0.00748124579f,0.00764506357f,
0.0078124688f,0.00798353925f,0.00815835595f,0.00833700132f,0.0085195573f,0.00870611146f,0.0088967504f,0.00909156445f,0.00929064304f,0.00949408207f,0.00970197562f,0.00991442055f,
0.0101315184f,0.0103533696f,0.0105800787f,0.0108117526f,0.0110484995f,0.0112904301f,0.0115376581f,0.0117902998f,0.0120484736f,0.0123123014f,0.0125819054f,0.0128574129f,
0.0131389536f,0.0134266596f,0.0137206651f,0.0140211089f,0.0143281305f,0.0146418763f,0.0149624916f,0.0152901271f,0.0156249376f,0.0159670785f,0.0163167119f,0.0166740026f,
0.0170391146f,0.0174122229f,0.0177935008f,0.0181831289f,0.0185812861f,0.0189881641f,0.0194039512f,0.0198288411f,0.0202630367f,0.0207067393f,0.0211601574f,0.0216235053f,
0.022096999f,0.0225808602f,0.0230753161f,0.0235805996f,0.0240969472f,0.0246246029f,0.0251638107f,0.0257148258f,0.0262779072f,0.0268533193f,0.0274413303f,0.0280422177f,
0.028656261f,0.0292837527f,0.0299249832f,0.0305802543f,0.0312498752f,0.031934157f,0.0326334238f,0.0333480053f,0.0340782292f,0.0348244458f,0.0355870016f,0.0363662578f,
0.0371625721f,0.0379763283f,0.0388079025f,0.0396576822f,0.0405260734f,0.0414134786f,0.0423203148f,0.0432470106f,0.044193998f,0.0451617204f,0.0461506322f,0.0471611992f,
0.0481938943f,0.0492492057f,0.0503276214f,0.0514296517f,0.0525558144f,0.0537066385f,0.0548826605f,0.0560844354f,0.0573125221f,0.0585675053f,0.0598499663f,0.0611605085f,
0.0624997504f,0.063868314f,0.0652668476f,0.0666960105f,0.0681564584f,0.0696488917f,0.0711740032f,0.0727325156f,0.0743251443f,0.0759526566f,0.077615805f,0.0793153644f,
0.0810521469f,0.0828269571f,0.0846406296f,0.0864940211f,0.088387996f,0.0903234407f,0.0923012644f,0.0943223983f,0.0963877887f,0.0984984115f,0.100655243f,0.102859303f,
0.105111629f,0.107413277f,0.109765321f,0.112168871f,0.114625044f,0.117135011f,0.119699933f,0.122321017f,0.124999501f,0.127736628f,0.130533695f,0.133392021f,
0.136312917f,0.139297783f,0.142348006f,0.145465031f,0.148650289f,0.151905313f,0.15523161f,0.158630729f,0.162104294f,0.165653914f,0.169281259f,0.172988042f,
0.176775992f,0.180646881f,0.184602529f,0.188644797f,0.192775577f,0.196996823f,0.201310486f,0.205718607f,0.210223258f,0.214826554f,0.219530642f,0.224337742f,
0.229250088f,0.234270021f,0.239399865f,0.244642034f,0.249999002f,0.255473256f,0.26106739f,0.266784042f,0.272625834f,0.278595567f,0.284696013f,0.290930063f,
0.297300577f,0.303810626f,0.31046322f,0.317261457f,0.324208587f,0.331307828f,0.338562518f,0.345976084f,0.353551984f,0.361293763f,0.369205058f,0.377289593f,
0.385551155f,0.393993646f,0.402620971f,0.411437213f,0.420446515f,0.429653108f,0.439061284f,0.448675483f,0.458500177f,0.468540043f,0.478799731f,0.489284068f,
0.499998003f,0.510946512f,0.522134781f,0.533568084f,0.545251667f,0.557191133f,0.569392025f,0.581860125f,0.594601154f,0.607621253f,0.62092644f,0.634522915f,
0.648417175f,0.662615657f,0.677125037f,0.691952169f,0.707103968f,0.722587526f,0.738410115f,0.754579186f,0.771102309f,0.787987292f,0.805241942f,0.822874427f,
0.84089303f,0.859306216f,0.878122568f,0.897350967f,0.917000353f,0.937080085f,0.957599461f,0.978568137f,0.999996006f,1.02189302f,1.04426956f,1.06713617f,
1.09050333f,1.11438227f,1.13878405f,1.16372025f,1.18920231f,1.21524251f,1.24185288f,1.26904583f,1.29683435f,1.32523131f,1.35425007f,1.38390434f,
1.41420794f,1.44517505f,1.47682023f,1.50915837f,1.54220462f,1.57597458f,1.61048388f,1.64574885f,1.68178606f,1.71861243f,1.75624514f,1.79470193f,
1.83400071f,1.87416017f,1.91519892f,1.95713627f,1.99999201f,2.04378605f,2.08853912f,2.13427234f,2.18100667f,2.22876453f,2.2775681f,2.3274405f,
2.37840462f,2.43048501f,2.48370576f,2.53809166f,2.5936687f,2.65046263f,2.70850015f,2.76780868f,2.82841587f,2.8903501f,2.95364046f,3.01831675f,
3.08440924f,3.15194917f,3.22096777f,3.29149771f,3.36357212f,3.43722486f,3.51249027f,3.58940387f,3.66800141f,3.74832034f,3.83039784f,3.91427255f,
3.99998403f,4.0875721f,4.17707825f,4.26854467f,4.36201334f,4.45752907f,4.5551362f,4.654881f,4.75680923f,4.86097002f,4.96741152f,5.07618332f,
5.1873374f,5.30092525f,5.41700029f,5.53561735f,5.65683174f,5.78070021f,5.90728092f,6.03663349f,6.16881847f,6.30389833f,6.44193554f,6.58299541f,
6.72714424f,6.87444973f,7.02498055f,7.17880774f,7.33600283f,7.49664068f,7.66079569f,7.82854509f,7.99996805f,8.1751442f,8.35415649f,8.53708935f,
8.72402668f,8.91505814f,9.11027241f,9.309762f,9.51361847f,9.72194004f,9.93482304f,10.1523666f,10.3746748f,10.6018505f,10.8340006f,11.0712347f,
11.3136635f,11.5614004f,11.8145618f,12.073267f,12.3376369f,12.6077967f,12.8838711f,13.1659908f,13.4542885f,13.7488995f,14.0499611f,14.3576155f,
14.6720057f,14.9932814f,15.3215914f,15.6570902f,15.9999361f,16.3502884f,16.708313f,17.0741787f,17.4480534f,17.8301163f,18.2205448f,18.619524f,
19.0272369f,19.4438801f,19.8696461f,20.3047333f,20.7493496f,21.203701f,21.6680012f,22.1424694f,22.627327f,23.1228008f,23.6291237f,24.146534f,
24.6752739f,25.2155933f,25.7677422f,26.3319817f,26.908577f,27.4977989f,28.0999222f,28.7152309f,29.3440113f,29.9865627f,30.6431828f,31.3141804f,
31.9998722f,32.7005768f,33.416626f,34.1483574f,34.8961067f,35.6602325f,36.4410896f,37.239048f,38.0544739f,38.8877602f,39.7392921f,40.6094666f,
41.4986992f,42.407402f,43.3360023f,44.2849388f,45.2546539f,46.2456017f,47.2582474f,48.2930679f,49.3505478f,50.4311867f,51.5354843f,52.6639633f,
53.8171539f,54.9955978f,56.1998444f,57.4304619f,58.6880226f,59.9731255f,61.2863655f,62.6283607f,63.9997444f,65.4011536f,66.833252f,68.2967148f,
69.7922134f,71.3204651f,72.8821793f,74.478096f,76.1089478f,77.7755203f,79.4785843f,81.2189331f,82.9973984f,84.8148041f,86.6720047f,88.5698776f,
90.5093079f,92.4912033f,94.5164948f,96.5861359f,98.7010956f,100.862373f,103.070969f,105.327927f,107.634308f,109.991196f,112.399689f,114.860924f,
117.376045f,119.946251f,122.572731f,125.256721f,127.999489f,130.802307f,133.666504f,136.59343f,139.584427f,142.64093f,145.764359f,148.956192f,
152.217896f,155.551041f,158.957169f,162.437866f,165.994797f,169.629608f,173.344009f,177.139755f,181.018616f,184.982407f,189.03299f,193.172272f,
197.402191f,201.724747f,206.141937f,210.655853f,215.268616f,219.982391f,224.799377f,229.721848f,234.75209f,239.892502f,245.145462f,250.513443f,
255.998978f,261.604614f,267.333008f,273.186859f,279.168854f,285.28186f,291.528717f,297.912384f,304.435791f,311.102081f,317.914337f,324.875732f,
331.989594f,339.259216f,346.688019f,354.27951f,362.037231f,369.964813f,378.065979f,386.344543f,394.804382f,403.449493f,412.283875f,421.311707f,
430.537231f,439.964783f,449.598755f,459.443695f,469.504181f,479.785004f,490.290924f,501.026886f,511.997955f,523.209229f,534.666016f,546.373718f,
558.337708f,570.563721f,583.057434f,595.824768f,608.871582f,622.204163f,635.828674f,649.751465f,663.979187f,678.518433f,693.376038f,708.559021f,
724.074463f,739.929626f,756.131958f,772.689087f,789.608765f,806.898987f,824.567749f,842.623413f,861.074463f,879.929565f,899.19751f,918.88739f,
939.008362f,959.570007f,980.581848f,1002.05377f,1023.99591f,1046.41846f,1069.33203f,1092.74744f,1116.67542f,1141.12744f,1166.11487f,1191.64954f,
1217.74316f,1244.40833f,1271.65735f,1299.50293f,1327.95837f,1357.03687f,1386.75208f,1417.11804f,1448.14893f,1479.85925f,1512.26392f,1545.37817f,
1579.21753f,1613.79797f,1649.1355f,1685.24683f,1722.14893f,1759.85913f,1798.39502f,1837.77478f,1878.01672f,1919.14001f,1961.1637f,2004.10754f,
2047.99182f,2092.83691f,2138.66406f,2185.49487f,2233.35083f,2282.25488f,2332.22974f,2383.29907f,2435.48633f,2488.81665f,2543.3147f,2599.00586f,
2655.91675f,2714.07373f,2773.50415f,2834.23608f,2896.29785f,2959.71851f,3024.52783f,3090.75635f,3158.43506f,3227.59595f,3298.271f,3370.49365f,
3444.29785f,3519.71826f,3596.79004f,3675.54956f,3756.03345f,3838.28003f,3922.32739f,4008.21509f,4095.98364f,4185.67383f,4277.32812f,4370.98975f,
4466.70166f,4564.50977f,4664.45947f,4766.59814f,4870.97266f,4977.6333f,5086.62939f,5198.01172f,5311.8335f,5428.14746f,5547.0083f,5668.47217f,
5792.5957f,5919.43701f,6049.05566f,6181.5127f,6316.87012f,6455.19189f,6596.54199f,6740.9873f,6888.5957f,7039.43652f,7193.58008f,7351.09912f,
7512.06689f,7676.56006f,7844.65479f,8016.43018f,8191.96729f,8371.34766f,8554.65625f,8741.97949f,8933.40332f,9129.01953f,9328.91895f,9533.19629f,
9741.94531f,9955.2666f,10173.2588f,10396.0234f,10623.667f,10856.2949f,11094.0166f,11336.9443f,11585.1914f,11838.874f,12098.1113f,12363.0254f,
12633.7402f,12910.3838f,13193.084f,13481.9746f,13777.1914f,14078.873f,14387.1602f,14702.1982f,15024.1338f,15353.1201f,15689.3096f,16032.8604f,
16383.9346f,16742.6953f,17109.3125f,17483.959f,17866.8066f,18258.0391f,18657.8379f,19066.3926f,19483.8906f,19910.5332f,20346.5176f,20792.0469f,
21247.334f,21712.5898f,22188.0332f,22673.8887f,23170.3828f,23677.748f,24196.2227f,24726.0508f,25267.4805f,25820.7676f,26386.168f,26963.9492f,
27554.3828f,28157.7461f,28774.3203f,29404.3965f,30048.2676f,30706.2402f,31378.6191f,32065.7207f,32767.8691f,33485.3906f,34218.625f,34967.918f,
35733.6133f,36516.0781f,37315.6758f,38132.7852f,38967.7812f,39821.0664f,40693.0352f,41584.0938f,42494.668f,43425.1797f,44376.0664f,45347.7773f,
46340.7656f,47355.4961f,48392.4453f,49452.1016f,50534.9609f,51641.5352f,52772.3359f,53927.8984f,55108.7656f,56315.4922f,57548.6406f,58808.793f,
60096.5352f,61412.4805f,62757.2383f,64131.4414f,65535.7383f};
static const float f_pow2_hi[1025] = {
1.52588509e-05f,1.55929756e-05f,1.59344163e-05f,1.62833348e-05f,1.66398931e-05f,1.70042604e-05f,1.73766057e-05f,1.77571037e-05f,1.81459327e-05f,1.85432782e-05f,1.89493221e-05f,1.93642591e-05f,
1.978828e-05f,2.0221587e-05f,2.06643817e-05f,2.11168735e-05f,2.15792734e-05f,2.20517977e-05f,2.25346685e-05f,2.3028113e-05f,2.35323641e-05f,2.40476547e-05f,2.45742303e-05f,2.51123365e-05f,
2.56622243e-05f,2.62241538e-05f,2.67983887e-05f,2.73851965e-05f,2.79848537e-05f,2.85976421e-05f,2.92238492e-05f,2.98637697e-05f,3.05177018e-05f,3.11859512e-05f,3.18688326e-05f,3.25666697e-05f,
3.32797863e-05f,3.40085207e-05f,3.47532114e-05f,3.55142074e-05f,3.62918654e-05f,3.70865564e-05f,3.78986442e-05f,3.87285181e-05f,3.95765601e-05f,4.04431739e-05f,4.13287635e-05f,4.22337471e-05f,
4.31585468e-05f,4.41035954e-05f,4.50693369e-05f,4.6056226e-05f,4.70647283e-05f,4.80953095e-05f,4.91484607e-05f,5.0224673e-05f,5.13244486e-05f,5.24483075e-05f,5.35967774e-05f,5.4770393e-05f,
5.59697073e-05f,5.71952842e-05f,5.84476984e-05f,5.97275393e-05f,6.10354036e-05f,6.23719025e-05f,6.37376652e-05f,6.51333394e-05f,6.65595726e-05f,6.80170415e-05f,6.95064227e-05f,7.10284148e-05f,
7.25837308e-05f,7.41731128e-05f,7.57972884e-05f,7.74570362e-05f,7.91531202e-05f,8.08863479e-05f,8.26575269e-05f,8.44674942e-05f,8.63170935e-05f,8.82071909e-05f,9.01386738e-05f,9.2112452e-05f,
9.41294566e-05f,9.61906189e-05f,9.82969214e-05f,0.000100449346f,0.000102648897f,0.000104896615f,0.000107193555f,0.000109540786f,0.000111939415f,0.000114390568f,0.000116895397f,0.000119455079f,
0.000122070807f,0.000124743805f,0.00012747533f,0.000130266679f,0.000133119145f,0.000136034083f,0.000139012845f,0.00014205683f,0.000145167462f,0.000148346226f,0.000151594577f,0.000154914072f,
0.00015830624f,0.000161772696f,0.000165315054f,0.000168934988f,0.000172634187f,0.000176414382f,0.000180277348f,0.000184224904f,0.000188258913f,0.000192381238f,0.000196593843f,0.000200898692f,
0.000205297794f,0.00020979323f,0.00021438711f,0.000219081572f,0.000223878829f,0.000228781137f,0.000233790794f,0.000238910157f,0.000244141615f,0.00024948761f,0.000254950661f,0.000260533358f,
0.00026623829f,0.000272068166f,0.000278025691f,0.000284113659f,0.000290334923f,0.000296692451f,0.000303189154f,0.000309828145f,0.000316612481f,0.000323545391f,0.000330630108f,0.000337869977f,
0.000345268374f,0.000352828763f,0.000360554695f,0.000368449808f,0.000376517826f,0.000384762476f,0.000393187685f,0.000401797384f,0.000410595589f,0.00041958646f,0.000428774219f,0.000438163144f,
0.000447757659f,0.000457562273f,0.000467581587f,0.000477820315f,0.000488283229f,0.00049897522f,0.000509901321f,0.000521066715f,0.000532476581f,0.000544136332f,0.000556051382f,0.000568227319f,
0.000580669846f,0.000593384902f,0.000606378308f,0.00061965629f,0.000633224961f,0.000647090783f,0.000661260216f,0.000675739953f,0.000690536748f,0.000705657527f,0.000721109391f,0.000736899616f,
0.000753035652f,0.000769524951f,0.000786375371f,0.000803594769f,0.000821191177f,0.000839172921f,0.000857548439f,0.000876326289f,0.000895515317f,0.000915124547f,0.000935163174f,0.000955640629f,
0.000976566458f,0.000997950439f,0.00101980264f,0.00104213343f,0.00106495316f,0.00108827266f,0.00111210276f,0.00113645464f,0.00116133969f,0.0011867698f,0.00121275662f,0.00123931258f,
0.00126644992f,0.00129418157f,0.00132252043f,0.00135147991f,0.0013810735f,0.00141131505f,0.00144221878f,0.00147379923f,0.0015060713f,0.0015390499f,0.00157275074f,0.00160718954f,
0.00164238235f,0.00167834584f,0.00171509688f,0.00175265258f,0.00179103063f,0.00183024909f,0.00187032635f,0.00191128126f,0.00195313292f,0.00199590088f,0.00203960529f,0.00208426686f,
0.00212990632f,0.00217654533f,0.00222420553f,0.00227290927f,0.00232267939f,0.00237353961f,0.00242551323f,0.00247862516f,0.00253289985f,0.00258836313f,0.00264504086f,0.00270295981f,
0.00276214699f,0.00282263011f,0.00288443756f,0.00294759846f,0.00301214261f,0.00307809981f,0.00314550148f,0.00321437907f,0.00328476471f,0.00335669168f,0.00343019376f,0.00350530515f,
0.00358206127f,0.00366049819f,0.0037406527f,0.00382256252f,0.00390626583f,0.00399180176f,0.00407921057f,0.00416853372f,0.00425981265f,0.00435309066f,0.00444841105f,0.00454581855f,
0.00464535877f,0.00474707922f,0.00485102646f,0.00495725032f,0.00506579969f,0.00517672626f,0.00529008172f,0.00540591963f,0.00552429399f,0.00564526021f,0.00576887513f,0.00589519693f,
0.00602428522f,0.00615619961f,0.00629100297f,0.00642875815f,0.00656952942f,0.00671338337f,0.00686038751f,0.00701061031f,0.00716412254f,0.00732099637f,0.00748130539f,0.00764512504f,
0.00781253166f,0.00798360351f,0.00815842114f,0.00833706744f,0.00851962529f,0.00870618131f,0.00889682211f,0.0090916371f,0.00929071754f,0.00949415844f,0.00970205292f,0.00991450064f,
0.0101315994f,0.0103534525f,0.0105801634f,0.0108118393f,0.011048588f,0.0112905204f,0.0115377503f,0.0117903939f,0.0120485704f,0.0123123992f,0.0125820059f,0.0128575163f,
0.0131390588f,0.0134267667f,0.013720775f,0.0140212206f,0.0143282451f,0.0146419927f,0.0149626108f,0.0152902501f,0.0156250633f,0.015967207f,0.0163168423f,0.0166741349f,
0.0170392506f,0.0174123626f,0.0177936442f,0.0181832742f,0.0185814351f,0.0189883169f,0.0194041058f,0.0198290013f,0.0202631988f,0.0207069051f,0.0211603269f,0.0216236785f,
0.0220971759f,0.0225810409f,0.0230755005f,0.0235807877f,0.0240971409f,0.0246247984f,0.0251640119f,0.0257150326f,0.0262781177f,0.0268535335f,0.02744155f,0.0280424412f,
0.0286564901f,0.0292839855f,0.0299252216f,0.0305805001f,0.0312501267f,0.0319344141f,0.0326336846f,0.0333482698f,0.0340785012f,0.0348247252f,0.0355872884f,0.0363665484f,
0.0371628702f,0.0379766338f,0.0388082117f,0.0396580026f,0.0405263975f,0.0414138101f,0.0423206538f,0.043247357f,0.0441943519f,0.0451620817f,0.046151001f,0.0471615754f,
0.0481942818f,0.0492495969f,0.0503280237f,0.0514300652f,0.0525562353f,0.0537070669f,0.0548831001f,0.0560848825f,0.0573129803f,0.058567971f,0.0598504432f,0.0611610003f,
0.0625002533f,0.0638688281f,0.0652673692f,0.0666965395f,0.0681570023f,0.0696494505f,0.0711745769f,0.0727330968f,0.0743257403f,0.0759532675f,0.0776164234f,0.0793160051f,
0.0810527951f,0.0828276202f,0.0846413076f,0.086494714f,0.0883887038f,0.0903241634f,0.092302002f,0.0943231508f,0.0963885635f,0.0984991938f,0.100656047f,0.10286013f,
0.105112471f,0.107414134f,0.1097662f,0.112169765f,0.114625961f,0.117135942f,0.119700886f,0.122322001f,0.125000507f,0.127737656f,0.130534738f,0.133393079f,
0.136314005f,0.139298901f,0.142349154f,0.145466194f,0.148651481f,0.151906535f,0.155232847f,0.15863201f,0.16210559f,0.16565524f,0.169282615f,0.172989428f,
0.176777408f,0.180648327f,0.184604004f,0.188646302f,0.192777127f,0.196998388f,0.201312095f,0.205720261f,0.210224941f,0.214828268f,0.2195324f,0.22433953f,
0.229251921f,0.234271884f,0.239401773f,0.244644001f,0.250001013f,0.255475312f,0.261069477f,0.266786158f,0.272628009f,0.278597802f,0.284698308f,0.290932387f,
0.297302961f,0.30381307f,0.310465693f,0.31726402f,0.32421118f,0.331310481f,0.33856523f,0.345978856f,0.353554815f,0.361296654f,0.369208008f,0.377292603f,
0.385554254f,0.393996775f,0.40262419f,0.411440521f,0.420449883f,0.429656535f,0.439064801f,0.44867906f,0.458503842f,0.468543768f,0.478803545f,0.489288002f,
0.500002027f,0.510950625f,0.522138953f,0.533572316f,0.545256019f,0.557195604f,0.569396615f,0.581864774f,0.594605923f,0.60762614f,0.620931387f,0.634528041f,
0.64842236f,0.662620962f,0.677130461f,0.691957712f,0.70710963f,0.722593307f,0.738416016f,0.754585207f,0.771108508f,0.78799355f,0.80524838f,0.822881043f,
0.840899765f,0.859313071f,0.878129601f,0.897358119f,0.917007685f,0.937087536f,0.95760709f,0.978576005f,1.00000405f,1.02190125f,1.04427791f,1.06714463f,
1.09051204f,1.11439121f,1.13879323f,1.16372955f,1.18921185f,1.21525228f,1.24186277f,1.26905608f,1.29684472f,1.32524192f,1.35426092f,1.38391542f,
1.41421926f,1.44518661f,1.47683203f,1.50917041f,1.54221702f,1.5759871f,1.61049676f,1.64576209f,1.68179953f,1.71862614f,1.7562592f,1.79471624f,
1.83401537f,1.87417507f,1.91521418f,1.95715201f,2.00000811f,2.0438025f,2.08855581f,2.13428926f,2.18102407f,2.22878242f,2.27758646f,2.3274591f,
2.37842369f,2.43050456f,2.48372555f,2.53811216f,2.59368944f,2.65048385f,2.70852184f,2.76783085f,2.82843852f,2.89037323f,2.95366406f,3.01834083f,
3.08443403f,3.1519742f,3.22099352f,3.29152417f,3.36359906f,3.43725228f,3.51251841f,3.58943248f,3.66803074f,3.74835014f,3.83042836f,3.91430402f,
4.00001621f,4.087605f,4.17711163f,4.26857853f,4.36204815f,4.45756483f,4.55517292f,4.65491819f,4.75684738f,4.86100912f,4.9674511f,5.07622433f,
5.18737888f,5.30096769f,5.41704369f,5.5356617f,5.65687704f,5.78074646f,5.90732813f,6.03668165f,6.16886806f,6.3039484f,6.44198704f,6.58304834f,
6.72719812f,6.87450457f,7.02503681f,7.17886496f,7.33606148f,7.49670029f,7.66085672f,7.82860804f,8.00003242f,8.17521f,8.35422325f,8.53715706f,
8.7240963f,8.91512966f,9.11034584f,9.30983639f,9.51369476f,9.72201824f,9.93490219f,10.1524487f,10.3747578f,10.6019354f,10.8340874f,11.0713234f,
11.3137541f,11.5614929f,11.8146563f,12.0733633f,12.3377361f,12.6078968f,12.8839741f,13.1660967f,13.4543962f,13.7490091f,14.0500736f,14.3577299f,
14.672123f,14.9934006f,15.3217134f,15.6572161f,16.0000648f,16.35042f,16.7084465f,17.0743141f,17.4481926f,17.8302593f,18.2206917f,18.6196728f,
19.0273895f,19.4440365f,19.8698044f,20.3048973f,20.7495155f,21.2038708f,21.6681747f,22.1426468f,22.6275082f,23.1229858f,23.6293125f,24.1467266f,
24.6754723f,25.2157936f,25.7679482f,26.3321934f,26.9087925f,27.4980183f,28.1001472f,28.7154598f,29.3442459f,29.9868011f,30.6434269f,31.3144321f,
32.0001297f,32.70084f,33.416893f,34.1486282f,34.8963852f,35.6605186f,36.4413834f,37.2393456f,38.0547791f,38.888073f,39.7396088f,40.6097946f,
41.4990311f,42.4077415f,43.3363495f,44.2852936f,45.2550163f,46.2459717f,47.258625f,48.2934532f,49.3509445f,50.4315872f,51.5358963f,52.6643867f,
53.817585f,54.9960365f,56.2002945f,57.4309196f,58.6884918f,59.9736023f,61.2868538f,62.6288643f,64.0002594f,65.40168f,66.833786f,68.2972565f,
69.7927704f,71.3210373f,72.8827667f,74.4786911f,76.1095581f,77.7761459f,79.4792175f,81.2195892f,82.9980621f,84.8154831f,86.672699f,88.5705872f,
90.5100327f,92.4919434f,94.5172501f,96.5869064f,98.701889f,100.863174f,103.071793f,105.328773f,107.63517f,109.992073f,112.400589f,114.861839f,
117.376984f,119.947205f,122.573708f,125.257729f,128.000519f,130.80336f,133.667572f,136.594513f,139.585541f,142.642075f,145.765533f,148.957382f,
152.219116f,155.552292f,158.958435f,162.439178f,165.996124f,169.630966f,173.345398f,177.141174f,181.020065f,184.983887f,189.0345f,193.173813f,
197.403778f,201.726349f,206.143585f,210.657547f,215.27034f,219.984146f,224.801178f,229.723679f,234.753967f,239.894409f,245.147415f,250.515457f,
256.001038f,261.60672f,267.335144f,273.189026f,279.171082f,285.284149f,291.531067f,297.914764f,304.438232f,311.104584f,317.91687f,324.878357f,
331.992249f,339.261932f,346.690796f,354.282349f,362.040131f,369.967773f,378.069f,386.347626f,394.807556f,403.452698f,412.28717f,421.315094f,
430.54068f,439.968292f,449.602356f,459.447357f,469.507935f,479.788818f,490.29483f,501.030914f,512.002075f,523.21344f,534.670288f,546.378052f,
558.342163f,570.568298f,583.062134f,595.829529f,608.876465f,622.209167f,635.83374f,649.756714f,663.984497f,678.523865f,693.381592f,708.564697f,
724.080261f,739.935547f,756.138f,772.695251f,789.615112f,806.905396f,824.574341f,842.630188f,861.08136f,879.936584f,899.204712f,918.894714f,
939.015869f,959.577637f,980.589661f,1002.06183f,1024.00415f,1046.42688f,1069.34058f,1092.7561f,1116.68433f,1141.1366f,1166.12427f,1191.65906f,
1217.75293f,1244.41833f,1271.66748f,1299.51343f,1327.96899f,1357.04773f,1386.76318f,1417.12939f,1448.16052f,1479.87109f,1512.276f,1545.3905f,
1579.23022f,1613.81079f,1649.14868f,1685.26038f,1722.16272f,1759.87317f,1798.40942f,1837.78943f,1878.03174f,1919.15527f,1961.17932f,2004.12366f,
2048.0083f,2092.85376f,2138.68115f,2185.51221f,2233.36865f,2282.27319f,2332.24854f,2383.31812f,2435.50586f,2488.83667f,2543.33496f,2599.02686f,
2655.93799f,2714.09546f,2773.52637f,2834.25879f,2896.32104f,2959.74219f,3024.552f,3090.78101f,3158.46045f,3227.62158f,3298.29736f,3370.52075f,
3444.32544f,3519.74634f,3596.81885f,3675.57886f,3756.06348f,3838.31055f,3922.35864f,4008.24731f,4096.0166f,4185.70752f,4277.3623f,4371.02441f,
4466.7373f,4564.54639f,4664.49707f,4766.63623f,4871.01172f,4977.67334f,5086.66992f,5198.05371f,5311.87598f,5428.19092f,5547.05273f,5668.51758f,
5792.64209f,5919.48438f,6049.104f,6181.56201f,6316.9209f,6455.24316f,6596.59473f,6741.0415f,6888.65088f,7039.49268f,7193.6377f,7351.15771f,
7512.12695f,7676.62109f,7844.71729f,8016.49463f,8192.0332f,8371.41504f,8554.72461f,8742.04883f,8933.47461f,9129.09277f,9328.99414f,9533.27246f,
9742.02344f,9955.34668f,10173.3398f,10396.1074f,10623.752f,10856.3818f,11094.1055f,11337.0352f,11585.2842f,11838.9688f,12098.208f,12363.124f,
12633.8418f,12910.4863f,13193.1895f,13482.083f,13777.3018f,14078.9854f,14387.2754f,14702.3154f,15024.2539f,15353.2422f,15689.4346f,16032.9893f,
16384.0664f,16742.8301f,17109.4492f,17484.0977f,17866.9492f,18258.1855f,18657.9883f,19066.5449f,19484.0469f,19910.6934f,20346.6797f,20792.2148f,
21247.5039f,21712.7637f,22188.2109f,22674.0703f,23170.5684f,23677.9375f,24196.416f,24726.248f,25267.6836f,25820.9727f,26386.3789f,26964.166f,
27554.6035f,28157.9707f,28774.5508f,29404.6309f,30048.5078f,30706.4844f,31378.8691f,32065.9785f,32768.1328f,33485.6602f,34218.8984f,34968.1953f,
35733.8984f,36516.3711f,37315.9766f,38133.0898f,38968.0938f,39821.3867f,40693.3594f,41584.4297f,42495.0078f,43425.5273f,44376.4219f,45348.1406f,
46341.1367f,47355.875f,48392.832f,49452.4961f,50535.3672f,51641.9453f,52772.7578f,53928.332f,55109.207f,56315.9414f,57549.1016f,58809.2617f,
60097.0156f,61412.9688f,62757.7383f,64131.957f,65536.2656f};
static const float f_sin01_lo[1025] = {
-3.00000011e-06f,0.0245382283f,0.0490646735f,0.0735615641f,0.0980141386f,0.122407675f,0.146727473f,0.170958892f,0.195087329f,0.21909824f,0.242977187f,0.266709745f,
0.290281683f,0.313678741f,0.336886853f,0.35989204f,0.382680446f,0.405238301f,0.427552104f,0.449608326f,0.471393734f,0.492895186f,0.514099717f,0.534994602f,
0.555567205f,0.575805187f,0.59569633f,0.615228593f,0.634390295f,0.65316987f,0.671555936f,0.689537525f,0.707103789f,0.724244058f,0.740948141f,0.757205844f,
0.773007452f,0.78834343f,0.803204536f,0.817581832f,0.831466615f,0.84485054f,0.85772562f,0.870083988f,0.881918252f,0.893221319f,0.903986275f,0.914206743f,
0.923876524f,0.932989776f,0.941541076f,0.949525177f,0.956937313f,0.963773072f,0.970028281f,0.975699127f,0.98078227f,0.985274613f,0.989173532f,0.992476523f,
0.995181739f,0.997287452f,0.99879247f,0.999695837f,0.99999702f,0.999695837f,0.99879247f,0.997287452f,0.995181739f,0.992476523f,0.989173532f,0.985274613f,
0.98078227f,0.975699127f,0.970028281f,0.963773072f,0.956937313f,0.949525177f,0.941541076f,0.932989776f,0.923876524f,0.914206743f,0.903986275f,0.893221319f,
0.881918252f,0.870083988f,0.85772562f,0.84485054f,0.831466615f,0.817581832f,0.803204536f,0.78834343f,0.773007452f,0.757205844f,0.740948141f,0.724244058f,
0.707103789f,0.689537525f,0.671555936f,0.65316987f,0.634390295f,0.615228593f,0.59569633f,0.575805187f,0.555567205f,0.534994602f,0.514099717f,0.492895186f,
0.471393734f,0.449608326f,0.427552104f,0.405238301f,0.382680446f,0.35989204f,0.336886853f,0.313678741f,0.290281683f,0.266709745f,0.242977187f,0.21909824f,
0.195087329f,0.170958892f,0.146727473f,0.122407675f,0.0980141386f,0.0735615641f,0.0490646735f,0.0245382283f,-3.00000011e-06f,-0.0245442279f,-0.0490706749f,-0.0735675618f,
-0.0980201438f,-0.122413673f,-0.146733478f,-0.170964882f,-0.195093319f,-0.219104245f,-0.242983177f,-0.266715765f,-0.290287673f,-0.313684732f,-0.336892843f,-0.359898031f,
-0.382686436f,-0.405244321f,-0.427558094f,-0.449614316f,-0.471399724f,-0.492901206f,-0.514105737f,-0.535000622f,-0.555573225f,-0.575811207f,-0.595702291f,-0.615234613f,
-0.634396255f,-0.653175831f,-0.671561956f,-0.689543545f,-0.707109809f,-0.724250078f,-0.740954101f,-0.757211864f,-0.773013473f,-0.78834945f,-0.803210557f,-0.817587793f,
-0.831472635f,-0.84485656f,-0.857731581f,-0.870090008f,-0.881924272f,-0.893227279f,-0.903992295f,-0.914212763f,-0.923882544f,-0.932995796f,-0.941547036f,-0.949531198f,
-0.956943333f,-0.963779092f,-0.970034242f,-0.975705147f,-0.980788291f,-0.985280633f,-0.989179492f,-0.992482543f,-0.9951877f,-0.997293472f,-0.99879843f,-0.999701798f,
-1.00000298f,-0.999701798f,-0.99879843f,-0.997293472f,-0.9951877f,-0.992482543f,-0.989179492f,-0.985280633f,-0.980788291f,-0.975705147f,-0.970034242f,-0.963779092f,
-0.956943333f,-0.949531198f,-0.941547036f,-0.932995796f,-0.923882544f,-0.914212763f,-0.903992295f,-0.893227279f,-0.881924272f,-0.870090008f,-0.857731581f,-0.84485656f,
-0.831472635f,-0.817587793f,-0.803210557f,-0.78834945f,-0.773013473f,-0.757211864f,-0.740954101f,-0.724250078f,-0.707109809f,-0.689543545f,-0.671561956f,-0.653175831f,
-0.634396255f,-0.615234613f,-0.595702291f,-0.575811207f,-0.555573225f,-0.535000622f,-0.514105737f,-0.492901206f,-0.471399724f,-0.449614316f,-0.427558094f,-0.405244321f,
-0.382686436f,-0.359898031f,-0.336892843f,-0.313684732f,-0.290287673f,-0.266715765f,-0.242983177f,-0.219104245f,-0.195093319f,-0.170964882f,-0.146733478f,-0.122413673f,
-0.0980201438f,-0.0735675618f,-0.0490706749f,-0.0245442279f,-3.00000011e-06f,0.0245382283f,0.0490646735f,0.0735615641f,0.0980141386f,0.122407675f,0.146727473f,0.170958892f,
0.195087329f,0.21909824f,0.242977187f,0.266709745f,0.290281683f,0.313678741f,0.336886853f,0.35989204f,0.382680446f,0.405238301f,0.427552104f,0.449608326f,
0.471393734f,0.492895186f,0.514099717f,0.534994602f,0.555567205f,0.575805187f,0.59569633f,0.615228593f,0.634390295f,0.65316987f,0.671555936f,0.689537525f,
0.707103789f,0.724244058f,0.740948141f,0.757205844f,0.773007452f,0.78834343f,0.803204536f,0.817581832f,0.831466615f,0.84485054f,0.85772562f,0.870083988f,
0.881918252f,0.893221319f,0.903986275f,0.914206743f,0.923876524f,0.932989776f,0.941541076f,0.949525177f,0.956937313f,0.963773072f,0.970028281f,0.975699127f,
0.98078227f,0.985274613f,0.989173532f,0.992476523f,0.995181739f,0.997287452f,0.99879247f,0.999695837f,0.99999702f,0.999695837f,0.99879247f,0.997287452f,
0.995181739f,0.992476523f,0.989173532f,0.985274613f,0.98078227f,0.975699127f,0.970028281f,0.963773072f,0.956937313f,0.949525177f,0.941541076f,0.932989776f,
0.923876524f,0.914206743f,0.903986275f,0.893221319f,0.881918252f,0.870083988f,0.85772562f,0.84485054f,0.831466615f,0.817581832f,0.803204536f,0.78834343f,
0.773007452f,0.757205844f,0.740948141f,0.724244058f,0.707103789f,0.689537525f,0.671555936f,0.65316987f,0.634390295f,0.615228593f,0.59569633f,0.575805187f,
0.555567205f,0.534994602f,0.514099717f,0.492895186f,0.471393734f,0.449608326f,0.427552104f,0.405238301f,0.382680446f,0.35989204f,0.336886853f,0.313678741f,
0.290281683f,0.266709745f,0.242977187f,0.21909824f,0.195087329f,0.170958892f,0.146727473f,0.122407675f,0.0980141386f,0.0735615641f,0.0490646735f,0.0245382283f,
-3.00000011e-06f,-0.0245442279f,-0.0490706749f,-0.0735675618f,-0.0980201438f,-0.122413673f,-0.146733478f,-0.170964882f,-0.195093319f,-0.219104245f,-0.242983177f,-0.266715765f,
-0.290287673f,-0.313684732f,-0.336892843f,-0.359898031f,-0.382686436f,-0.405244321f,-0.427558094f,-0.449614316f,-0.471399724f,-0.492901206f,-0.514105737f,-0.535000622f,
-0.555573225f,-0.575811207f,-0.595702291f,-0.615234613f,-0.634396255f,-0.653175831f,-0.671561956f,-0.689543545f,-0.707109809f,-0.724250078f,-0.740954101f,-0.757211864f,
-0.773013473f,-0.78834945f,-0.803210557f,-0.817587793f,-0.831472635f,-0.84485656f,-0.857731581f,-0.870090008f,-0.881924272f,-0.893227279f,-0.903992295f,-0.914212763f,
-0.923882544f,-0.932995796f,-0.941547036f,-0.949531198f,-0.956943333f,-0.963779092f,-0.970034242f,-0.975705147f,-0.980788291f,-0.985280633f,-0.989179492f,-0.992482543f,
-0.9951877f,-0.997293472f,-0.99879843f,-0.999701798f,-1.00000298f,-0.999701798f,-0.99879843f,-0.997293472f,-0.9951877f,-0.992482543f,-0.989179492f,-0.985280633f,
-0.980788291f,-0.975705147f,-0.970034242f,-0.963779092f,-0.956943333f,-0.949531198f,-0.941547036f,-0.932995796f,-0.923882544f,-0.914212763f,-0.903992295f,-0.893227279f,
-0.881924272f,-0.870090008f,-0.857731581f,-0.84485656f,-0.831472635f,-0.817587793f,-0.803210557f,-0.78834945f,-0.773013473f,-0.757211864f,-0.740954101f,-0.724250078f,
-0.707109809f,-0.689543545f,-0.671561956f,-0.653175831f,-0.634396255f,-0.615234613f,-0.595702291f,-0.575811207f,-0.555573225f,-0.535000622f,-0.514105737f,-0.492901206f,
-0.471399724f,-0.449614316f,-0.427558094f,-0.405244321f,-0.382686436f,-0.359898031f,-0.336892843f,-0.313684732f,-0.290287673f,-0.266715765f,-0.242983177f,-0.219104245f,
-0.195093319f,-0.170964882f,-0.146733478f,-0.122413673f,-0.0980201438f,-0.0735675618f,-0.0490706749f,-0.0245442279f,-3.00000011e-06f,0.0245382283f,0.0490646735f,0.0735615641f,
0.0980141386f,0.122407675f,0.146727473f,0.170958892f,0.195087329f,0.21909824f,0.242977187f,0.266709745f,0.290281683f,0.313678741f,0.336886853f,0.35989204f,
0.382680446f,0.405238301f,0.427552104f,0.449608326f,0.471393734f,0.492895186f,0.514099717f,0.534994602f,0.555567205f,0.575805187f,0.59569633f,0.615228593f,
0.634390295f,0.65316987f,0.671555936f,0.689537525f,0.707103789f,0.724244058f,0.740948141f,0.757205844f,0.773007452f,0.78834343f,0.803204536f,0.817581832f,
0.831466615f,0.84485054f,0.85772562f,0.870083988f,0.881918252f,0.893221319f,0.903986275f,0.914206743f,0.923876524f,0.932989776f,0.941541076f,0.949525177f,
0.956937313f,0.963773072f,0.970028281f,0.975699127f,0.98078227f,0.985274613f,0.989173532f,0.992476523f,0.995181739f,0.997287452f,0.99879247f,0.999695837f,
0.99999702f,0.999695837f,0.99879247f,0.997287452f,0.995181739f,0.992476523f,0.989173532f,0.985274613f,0.98078227f,0.975699127f,0.970028281f,0.963773072f,
0.956937313f,0.949525177f,0.941541076f,0.932989776f,0.923876524f,0.914206743f,0.903986275f,0.893221319f,0.881918252f,0.870083988f,0.85772562f,0.84485054f,
0.831466615f,0.817581832f,0.803204536f,0.78834343f,0.773007452f,0.757205844f,0.740948141f,0.724244058f,0.707103789f,0.689537525f,0.671555936f,0.65316987f,
0.634390295f,0.615228593f,0.59569633f,0.575805187f,0.555567205f,0.534994602f,0.514099717f,0.492895186f,0.471393734f,0.449608326f,0.427552104f,0.405238301f,
0.382680446f,0.35989204f,0.336886853f,0.313678741f,0.290281683f,0.266709745f,0.242977187f,0.21909824f,0.195087329f,0.170958892f,0.146727473f,0.122407675f,
0.0980141386f,0.0735615641f,0.0490646735f,0.0245382283f,-3.00000011e-06f,-0.0245442279f,-0.0490706749f,-0.0735675618f,-0.0980201438f,-0.122413673f,-0.146733478f,-0.170964882f,
-0.195093319f,-0.219104245f,-0.242983177f,-0.266715765f,-0.290287673f,-0.313684732f,-0.336892843f,-0.359898031f,-0.382686436f,-0.405244321f,-0.427558094f,-0.449614316f,
-0.471399724f,-0.492901206f,-0.514105737f,-0.535000622f,-0.555573225f,-0.575811207f,-0.595702291f,-0.615234613f,-0.634396255f,-0.653175831f,-0.671561956f,-0.689543545f,
-0.707109809f,-0.724250078f,-0.740954101f,-0.757211864f,-0.773013473f,-0.78834945f,-0.803210557f,-0.817587793f,-0.831472635f,-0.84485656f,-0.857731581f,-0.870090008f,
-0.881924272f,-0.893227279f,-0.903992295f,-0.914212763f,-0.923882544f,-0.932995796f,-0.941547036f,-0.949531198f,-0.956943333f,-0.963779092f,-0.970034242f,-0.975705147f,
-0.980788291f,-0.985280633f,-0.989179492f,-0.992482543f,-0.9951877f,-0.997293472f,-0.99879843f,-0.999701798f,-1.00000298f,-0.999701798f,-0.99879843f,-0.997293472f,
-0.9951877f,-0.992482543f,-0.989179492f,-0.985280633f,-0.980788291f,-0.975705147f,-0.970034242f,-0.963779092f,-0.956943333f,-0.949531198f,-0.941547036f,-0.932995796f,
-0.923882544f,-0.914212763f,-0.903992295f,-0.893227279f,-0.881924272f,-0.870090008f,-0.857731581f,-0.84485656f,-0.831472635f,-0.817587793f,-0.803210557f,-0.78834945f,
-0.773013473f,-0.757211864f,-0.740954101f,-0.724250078f,-0.707109809f,-0.689543545f,-0.671561956f,-0.653175831f,-0.634396255f,-0.615234613f,-0.595702291f,-0.575811207f,
-0.555573225f,-0.535000622f,-0.514105737f,-0.492901206f,-0.471399724f,-0.449614316f,-0.427558094f,-0.405244321f,-0.382686436f,-0.359898031f,-0.336892843f,-0.313684732f,
-0.290287673f,-0.266715765f,-0.242983177f,-0.219104245f,-0.195093319f,-0.170964882f,-0.146733478f,-0.122413673f,-0.0980201438f,-0.0735675618f,-0.0490706749f,-0.0245442279f,
-3.00000011e-06f,0.0245382283f,0.0490646735f,0.0735615641f,0.0980141386f,0.122407675f,0.146727473f,0.170958892f,0.195087329f,0.21909824f,0.242977187f,0.266709745f,
0.290281683f,0.313678741f,0.336886853f,0.35989204f,0.382680446f,0.405238301f,0.427552104f,0.449608326f,0.471393734f,0.492895186f,0.514099717f,0.534994602f,
0.555567205f,0.575805187f,0.59569633f,0.615228593f,0.634390295f,0.65316987f,0.671555936f,0.689537525f,0.707103789f,0.724244058f,0.740948141f,0.757205844f,
0.773007452f,0.78834343f,0.803204536f,0.817581832f,0.831466615f,0.84485054f,0.85772562f,0.870083988f,0.881918252f,0.893221319f,0.903986275f,0.914206743f,
0.923876524f,0.932989776f,0.941541076f,0.949525177f,0.956937313f,0.963773072f,0.970028281f,0.975699127f,0.98078227f,0.985274613f,0.989173532f,0.992476523f,
0.995181739f,0.997287452f,0.99879247f,0.999695837f,0.99999702f,0.999695837f,0.99879247f,0.997287452f,0.995181739f,0.992476523f,0.989173532f,0.985274613f,
0.98078227f,0.975699127f,0.970028281f,0.963773072f,0.956937313f,0.949525177f,0.941541076f,0.932989776f,0.923876524f,0.914206743f,0.903986275f,0.893221319f,
0.881918252f,0.870083988f,0.85772562f,0.84485054f,0.831466615f,0.817581832f,0.803204536f,0.78834343f,0.773007452f,0.757205844f,0.740948141f,0.724244058f,
0.707103789f,0.689537525f,0.671555936f,0.65316987f,0.634390295f,0.615228593f,0.59569633f,0.575805187f,0.555567205f,0.534994602f,0.514099717f,0.492895186f,
0.471393734f,0.449608326f,0.427552104f,0.405238301f,0.382680446f,0.35989204f,0.336886853f,0.313678741f,0.290281683f,0.266709745f,0.242977187f,0.21909824f,
0.195087329f,0.170958892f,0.146727473f,0.122407675f,0.0980141386f,0.0735615641f,0.0490646735f,0.0245382283f,-3.00000011e-06f,-0.0245442279f,-0.0490706749f,-0.0735675618f,
-0.0980201438f,-0.122413673f,-0.146733478f,-0.170964882f,-0.195093319f,-0.219104245f,-0.242983177f,-0.266715765f,-0.290287673f,-0.313684732f,-0.336892843f,-0.359898031f,
-0.382686436f,-0.405244321f,-0.427558094f,-0.449614316f,-0.471399724f,-0.492901206f,-0.514105737f,-0.535000622f,-0.555573225f,-0.575811207f,-0.595702291f,-0.615234613f,
-0.634396255f,-0.653175831f,-0.671561956f,-0.689543545f,-0.707109809f,-0.724250078f,-0.740954101f,-0.757211864f,-0.773013473f,-0.78834945f,-0.803210557f,-0.817587793f,
-0.831472635f,-0.84485656f,-0.857731581f,-0.870090008f,-0.881924272f,-0.893227279f,-0.903992295f,-0.914212763f,-0.923882544f,-0.932995796f,-0.941547036f,-0.949531198f,
-0.956943333f,-0.963779092f,-0.970034242f,-0.975705147f,-0.980788291f,-0.985280633f,-0.989179492f,-0.992482543f,-0.9951877f,-0.997293472f,-0.99879843f,-0.999701798f,
-1.00000298f,-0.999701798f,-0.99879843f,-0.997293472f,-0.9951877f,-0.992482543f,-0.989179492f,-0.985280633f,-0.980788291f,-0.975705147f,-0.970034242f,-0.963779092f,
-0.956943333f,-0.949531198f,-0.941547036f,-0.932995796f,-0.923882544f,-0.914212763f,-0.903992295f,-0.893227279f,-0.881924272f,-0.870090008f,-0.857731581f,-0.84485656f,
-0.831472635f,-0.817587793f,-0.803210557f,-0.78834945f,-0.773013473f,-0.757211864f,-0.740954101f,-0.724250078f,-0.707109809f,-0.689543545f,-0.671561956f,-0.653175831f,
-0.634396255f,-0.615234613f,-0.595702291f,-0.575811207f,-0.555573225f,-0.535000622f,-0.514105737f,-0.492901206f,-0.471399724f,-0.449614316f,-0.427558094f,-0.405244321f,
-0.382686436f,-0.359898031f,-0.336892843f,-0.313684732f,-0.290287673f,-0.266715765f,-0.242983177f,-0.219104245f,-0.195093319f,-0.170964882f,-0.146733478f,-0.122413673f,
-0.0980201438f,-0.0735675618f,-0.0490706749f,-0.0245442279f,-3.00000011e-06f};
static const float f_sin01_hi[1025] = {
3.00000011e-06f,0.0245442279f,0.0490706749f,0.0735675618f,0.0980201438f,0.122413673f,0.146733478f,0.170964882f,0.195093319f,0.219104245f,0.242983177f,0.266715765f,
0.290287673f,0.313684732f,0.336892843f,0.359898031f,0.382686436f,0.405244321f,0.427558094f,0.449614316f,0.471399724f,0.492901206f,0.514105737f,0.535000622f,
0.555573225f,0.575811207f,0.595702291f,0.615234613f,0.634396255f,0.653175831f,0.671561956f,0.689543545f,0.707109809f,0.724250078f,0.740954101f,0.757211864f,
0.773013473f,0.78834945f,0.803210557f,0.817587793f,0.831472635f,0.84485656f,0.857731581f,0.870090008f,0.881924272f,0.893227279f,0.903992295f,0.914212763f,
0.923882544f,0.932995796f,0.941547036f,0.949531198f,0.956943333f,0.963779092f,0.970034242f,0.975705147f,0.980788291f,0.985280633f,0.989179492f,0.992482543f,
0.9951877f,0.997293472f,0.99879843f,0.999701798f,1.00000298f,0.999701798f,0.99879843f,0.997293472f,0.9951877f,0.992482543f,0.989179492f,0.985280633f,
0.980788291f,0.975705147f,0.970034242f,0.963779092f,0.956943333f,0.949531198f,0.941547036f,0.932995796f,0.923882544f,0.914212763f,0.903992295f,0.893227279f,
0.881924272f,0.870090008f,0.857731581f,0.84485656f,0.831472635f,0.817587793f,0.803210557f,0.78834945f,0.773013473f,0.757211864f,0.740954101f,0.724250078f,
0.707109809f,0.689543545f,0.671561956f,0.653175831f,0.634396255f,0.615234613f,0.595702291f,0.575811207f,0.555573225f,0.535000622f,0.514105737f,0.492901206f,
0.471399724f,0.449614316f,0.427558094f,0.405244321f,0.382686436f,0.359898031f,0.336892843f,0.313684732f,0.290287673f,0.266715765f,0.242983177f,0.219104245f,
0.195093319f,0.170964882f,0.146733478f,0.122413673f,0.0980201438f,0.0735675618f,0.0490706749f,0.0245442279f,3.00000011e-06f,-0.0245382283f,-0.0490646735f,-0.0735615641f,
-0.0980141386f,-0.122407675f,-0.146727473f,-0.170958892f,-0.195087329f,-0.21909824f,-0.242977187f,-0.266709745f,-0.290281683f,-0.313678741f,-0.336886853f,-0.35989204f,
-0.382680446f,-0.405238301f,-0.427552104f,-0.449608326f,-0.471393734f,-0.492895186f,-0.514099717f,-0.534994602f,-0.555567205f,-0.575805187f,-0.59569633f,-0.615228593f,
-0.634390295f,-0.65316987f,-0.671555936f,-0.689537525f,-0.707103789f,-0.724244058f,-0.740948141f,-0.757205844f,-0.773007452f,-0.78834343f,-0.803204536f,-0.817581832f,
-0.831466615f,-0.84485054f,-0.85772562f,-0.870083988f,-0.881918252f,-0.893221319f,-0.903986275f,-0.914206743f,-0.923876524f,-0.932989776f,-0.941541076f,-0.949525177f,
-0.956937313f,-0.963773072f,-0.970028281f,-0.975699127f,-0.98078227f,-0.985274613f,-0.989173532f,-0.992476523f,-0.995181739f,-0.997287452f,-0.99879247f,-0.999695837f,
-0.99999702f,-0.999695837f,-0.99879247f,-0.997287452f,-0.995181739f,-0.992476523f,-0.989173532f,-0.985274613f,-0.98078227f,-0.975699127f,-0.970028281f,-0.963773072f,
-0.956937313f,-0.949525177f,-0.941541076f,-0.932989776f,-0.923876524f,-0.914206743f,-0.903986275f,-0.893221319f,-0.881918252f,-0.870083988f,-0.85772562f,-0.84485054f,
-0.831466615f,-0.817581832f,-0.803204536f,-0.78834343f,-0.773007452f,-0.757205844f,-0.740948141f,-0.724244058f,-0.707103789f,-0.689537525f,-0.671555936f,-0.65316987f,
-0.634390295f,-0.615228593f,-0.59569633f,-0.575805187f,-0.555567205f,-0.534994602f,-0.514099717f,-0.492895186f,-0.471393734f,-0.449608326f,-0.427552104f,-0.405238301f,
-0.382680446f,-0.35989204f,-0.336886853f,-0.313678741f,-0.290281683f,-0.266709745f,-0.242977187f,-0.21909824f,-0.195087329f,-0.170958892f,-0.146727473f,-0.122407675f,
-0.0980141386f,-0.0735615641f,-0.0490646735f,-0.0245382283f,3.00000011e-06f,0.0245442279f,0.0490706749f,0.0735675618f,0.0980201438f,0.122413673f,0.146733478f,0.170964882f,
0.195093319f,0.219104245f,0.242983177f,0.266715765f,0.290287673f,0.313684732f,0.336892843f,0.359898031f,0.382686436f,0.405244321f,0.427558094f,0.449614316f,
0.471399724f,0.492901206f,0.514105737f,0.535000622f,0.555573225f,0.575811207f,0.595702291f,0.615234613f,0.634396255f,0.653175831f,0.671561956f,0.689543545f,
0.707109809f,0.724250078f,0.740954101f,0.757211864f,0.773013473f,0.78834945f,0.803210557f,0.817587793f,0.831472635f,0.84485656f,0.857731581f,0.870090008f,
0.881924272f,0.893227279f,0.903992295f,0.914212763f,0.923882544f,0.932995796f,0.941547036f,0.949531198f,0.956943333f,0.963779092f,0.970034242f,0.975705147f,
0.980788291f,0.985280633f,0.989179492f,0.992482543f,0.9951877f,0.997293472f,0.99879843f,0.999701798f,1.00000298f,0.999701798f,0.99879843f,0.997293472f,
0.9951877f,0.992482543f,0.989179492f,0.985280633f,0.980788291f,0.975705147f,0.970034242f,0.963779092f,0.956943333f,0.949531198f,0.941547036f,0.932995796f,
0.923882544f,0.914212763f,0.903992295f,0.893227279f,0.881924272f,0.870090008f,0.857731581f,0.84485656f,0.831472635f,0.817587793f,0.803210557f,0.78834945f,
0.773013473f,0.757211864f,0.740954101f,0.724250078f,0.707109809f,0.689543545f,0.671561956f,0.653175831f,0.634396255f,0.615234613f,0.595702291f,0.575811207f,
0.555573225f,0.535000622f,0.514105737f,0.492901206f,0.471399724f,0.449614316f,0.427558094f,0.405244321f,0.382686436f,0.359898031f,0.336892843f,0.313684732f,
0.290287673f,0.266715765f,0.242983177f,0.219104245f,0.195093319f,0.170964882f,0.146733478f,0.122413673f,0.0980201438f,0.0735675618f,0.0490706749f,0.0245442279f,
3.00000011e-06f,-0.0245382283f,-0.0490646735f,-0.0735615641f,-0.0980141386f,-0.122407675f,-0.146727473f,-0.170958892f,-0.195087329f,-0.21909824f,-0.242977187f,-0.266709745f,
-0.290281683f,-0.313678741f,-0.336886853f,-0.35989204f,-0.382680446f,-0.405238301f,-0.427552104f,-0.449608326f,-0.471393734f,-0.492895186f,-0.514099717f,-0.534994602f,
-0.555567205f,-0.575805187f,-0.59569633f,-0.615228593f,-0.634390295f,-0.65316987f,-0.671555936f,-0.689537525f,-0.707103789f,-0.724244058f,-0.740948141f,-0.757205844f,
-0.773007452f,-0.78834343f,-0.803204536f,-0.817581832f,-0.831466615f,-0.84485054f,-0.85772562f,-0.870083988f,-0.881918252f,-0.893221319f,-0.903986275f,-0.914206743f,
-0.923876524f,-0.932989776f,-0.941541076f,-0.949525177f,-0.956937313f,-0.963773072f,-0.970028281f,-0.975699127f,-0.98078227f,-0.985274613f,-0.989173532f,-0.992476523f,
-0.995181739f,-0.997287452f,-0.99879247f,-0.999695837f,-0.99999702f,-0.999695837f,-0.99879247f,-0.997287452f,-0.995181739f,-0.992476523f,-0.989173532f,-0.985274613f,
-0.98078227f,-0.975699127f,-0.970028281f,-0.963773072f,-0.956937313f,-0.949525177f,-0.941541076f,-0.932989776f,-0.923876524f,-0.914206743f,-0.903986275f,-0.893221319f,
-0.881918252f,-0.870083988f,-0.85772562f,-0.84485054f,-0.831466615f,-0.817581832f,-0.803204536f,-0.78834343f,-0.773007452f,-0.757205844f,-0.740948141f,-0.724244058f,
-0.707103789f,-0.689537525f,-0.671555936f,-0.65316987f,-0.634390295f,-0.615228593f,-0.59569633f,-0.575805187f,-0.555567205f,-0.534994602f,-0.514099717f,-0.492895186f,
-0.471393734f,-0.449608326f,-0.427552104f,-0.405238301f,-0.382680446f,-0.35989204f,-0.336886853f,-0.313678741f,-0.290281683f,-0.266709745f,-0.242977187f,-0.21909824f,
-0.195087329f,-0.170958892f,-0.146727473f,-0.122407675f,-0.0980141386f,-0.0735615641f,-0.0490646735f,-0.0245382283f,3.00000011e-06f,0.0245442279f,0.0490706749f,0.0735675618f,
0.0980201438f,0.122413673f,0.146733478f,0.170964882f,0.195093319f,0.219104245f,0.242983177f,0.266715765f,0.290287673f,0.313684732f,0.336892843f,0.359898031f,
0.382686436f,0.405244321f,0.427558094f,0.449614316f,0.471399724f,0.492901206f,0.514105737f,0.535000622f,0.555573225f,0.575811207f,0.595702291f,0.615234613f,
0.634396255f,0.653175831f,0.671561956f,0.689543545f,0.707109809f,0.724250078f,0.740954101f,0.757211864f,0.773013473f,0.78834945f,0.803210557f,0.817587793f,
0.831472635f,0.84485656f,0.857731581f,0.870090008f,0.881924272f,0.893227279f,0.903992295f,0.914212763f,0.923882544f,0.932995796f,0.941547036f,0.949531198f,
0.956943333f,0.963779092f,0.970034242f,0.975705147f,0.980788291f,0.985280633f,0.989179492f,0.992482543f,0.9951877f,0.997293472f,0.99879843f,0.999701798f,
1.00000298f,0.999701798f,0.99879843f,0.997293472f,0.9951877f,0.992482543f,0.989179492f,0.985280633f,0.980788291f,0.975705147f,0.970034242f,0.963779092f,
0.956943333f,0.949531198f,0.941547036f,0.932995796f,0.923882544f,0.914212763f,0.903992295f,0.893227279f,0.881924272f,0.870090008f,0.857731581f,0.84485656f,
0.831472635f,0.817587793f,0.803210557f,0.78834945f,0.773013473f,0.757211864f,0.740954101f,0.724250078f,0.707109809f,0.689543545f,0.671561956f,0.653175831f,
0.634396255f,0.615234613f,0.595702291f,0.575811207f,0.555573225f,0.535000622f,0.514105737f,0.492901206f,0.471399724f,0.449614316f,0.427558094f,0.405244321f,
0.382686436f,0.359898031f,0.336892843f,0.313684732f,0.290287673f,0.266715765f,0.242983177f,0.219104245f,0.195093319f,0.170964882f,0.146733478f,0.122413673f,
0.0980201438f,0.0735675618f,0.0490706749f,0.0245442279f,3.00000011e-06f,-0.0245382283f,-0.0490646735f,-0.0735615641f,-0.0980141386f,-0.122407675f,-0.146727473f,-0.170958892f,
-0.195087329f,-0.21909824f,-0.242977187f,-0.266709745f,-0.290281683f,-0.313678741f,-0.336886853f,-0.35989204f,-0.382680446f,-0.405238301f,-0.427552104f,-0.449608326f,
-0.471393734f,-0.492895186f,-0.514099717f,-0.534994602f,-0.555567205f,-0.575805187f,-0.59569633f,-0.615228593f,-0.634390295f,-0.65316987f,-0.671555936f,-0.689537525f,
-0.707103789f,-0.724244058f,-0.740948141f,-0.757205844f,-0.773007452f,-0.78834343f,-0.803204536f,-0.817581832f,-0.831466615f,-0.84485054f,-0.85772562f,-0.870083988f,
-0.881918252f,-0.893221319f,-0.903986275f,-0.914206743f,-0.923876524f,-0.932989776f,-0.941541076f,-0.949525177f,-0.956937313f,-0.963773072f,-0.970028281f,-0.975699127f,
-0.98078227f,-0.985274613f,-0.989173532f,-0.992476523f,-0.995181739f,-0.997287452f,-0.99879247f,-0.999695837f,-0.99999702f,-0.999695837f,-0.99879247f,-0.997287452f,
-0.995181739f,-0.992476523f,-0.989173532f,-0.985274613f,-0.98078227f,-0.975699127f,-0.970028281f,-0.963773072f,-0.956937313f,-0.949525177f,-0.941541076f,-0.932989776f,
-0.923876524f,-0.914206743f,-0.903986275f,-0.893221319f,-0.881918252f,-0.870083988f,-0.85772562f,-0.84485054f,-0.831466615f,-0.817581832f,-0.803204536f,-0.78834343f,
-0.773007452f,-0.757205844f,-0.740948141f,-0.724244058f,-0.707103789f,-0.689537525f,-0.671555936f,-0.65316987f,-0.634390295f,-0.615228593f,-0.59569633f,-0.575805187f,
-0.555567205f,-0.534994602f,-0.514099717f,-0.492895186f,-0.471393734f,-0.449608326f,-0.427552104f,-0.405238301f,-0.382680446f,-0.35989204f,-0.336886853f,-0.313678741f,
-0.290281683f,-0.266709745f,-0.242977187f,-0.21909824f,-0.195087329f,-0.170958892f,-0.146727473f,-0.122407675f,-0.0980141386f,-0.0735615641f,-0.0490646735f,-0.0245382283f,
3.00000011e-06f,0.0245442279f,0.0490706749f,0.0735675618f,0.0980201438f,0.122413673f,0.146733478f,0.170964882f,0.195093319f,0.219104245f,0.242983177f,0.266715765f,
0.290287673f,0.313684732f,0.336892843f,0.359898031f,0.382686436f,0.405244321f,0.427558094f,0.449614316f,0.471399724f,0.492901206f,0.514105737f,0.535000622f,
0.555573225f,0.575811207f,0.595702291f,0.615234613f,0.634396255f,0.653175831f,0.671561956f,0.689543545f,0.707109809f,0.724250078f,0.740954101f,0.757211864f,
0.773013473f,0.78834945f,0.803210557f,0.817587793f,0.831472635f,0.84485656f,0.857731581f,0.870090008f,0.881924272f,0.893227279f,0.903992295f,0.914212763f,
0.923882544f,0.932995796f,0.941547036f,0.949531198f,0.956943333f,0.963779092f,0.970034242f,0.975705147f,0.980788291f,0.985280633f,0.989179492f,0.992482543f,
0.9951877f,0.997293472f,0.99879843f,0.999701798f,1.00000298f,0.999701798f,0.99879843f,0.997293472f,0.9951877f,0.992482543f,0.989179492f,0.985280633f,
0.980788291f,0.975705147f,0.970034242f,0.963779092f,0.956943333f,0.949531198f,0.941547036f,0.932995796f,0.923882544f,0.914212763f,0.903992295f,0.893227279f,
0.881924272f,0.870090008f,0.857731581f,0.84485656f,0.831472635f,0.817587793f,0.803210557f,0.78834945f,0.773013473f,0.757211864f,0.740954101f,0.724250078f,
0.707109809f,0.689543545f,0.671561956f,0.653175831f,0.634396255f,0.615234613f,0.595702291f,0.575811207f,0.555573225f,0.535000622f,0.514105737f,0.492901206f,
0.471399724f,0.449614316f,0.427558094f,0.405244321f,0.382686436f,0.359898031f,0.336892843f,0.313684732f,0.290287673f,0.266715765f,0.242983177f,0.219104245f,
0.195093319f,0.170964882f,0.146733478f,0.122413673f,0.0980201438f,0.0735675618f,0.0490706749f,0.0245442279f,3.00000011e-06f,-0.0245382283f,-0.0490646735f,-0.0735615641f,
-0.0980141386f,-0.122407675f,-0.146727473f,-0.170958892f,-0.195087329f,-0.21909824f,-0.242977187f,-0.266709745f,-0.290281683f,-0.313678741f,-0.336886853f,-0.35989204f,
-0.382680446f,-0.405238301f,-0.427552104f,-0.449608326f,-0.471393734f,-0.492895186f,-0.514099717f,-0.534994602f,-0.555567205f,-0.575805187f,-0.59569633f,-0.615228593f,
-0.634390295f,-0.65316987f,-0.671555936f,-0.689537525f,-0.707103789f,-0.724244058f,-0.740948141f,-0.757205844f,-0.773007452f,-0.78834343f,-0.803204536f,-0.817581832f,
-0.831466615f,-0.84485054f,-0.85772562f,-0.870083988f,-0.881918252f,-0.893221319f,-0.903986275f,-0.914206743f,-0.923876524f,-0.932989776f,-0.941541076f,-0.949525177f,
-0.956937313f,-0.963773072f,-0.970028281f,-0.975699127f,-0.98078227f,-0.985274613f,-0.989173532f,-0.992476523f,-0.995181739f,-0.997287452f,-0.99879247f,-0.999695837f,
-0.99999702f,-0.999695837f,-0.99879247f,-0.997287452f,-0.995181739f,-0.992476523f,-0.989173532f,-0.985274613f,-0.98078227f,-0.975699127f,-0.970028281f,-0.963773072f,
-0.956937313f,-0.949525177f,-0.941541076f,-0.932989776f,-0.923876524f,-0.914206743f,-0.903986275f,-0.893221319f,-0.881918252f,-0.870083988f,-0.85772562f,-0.84485054f,
-0.831466615f,-0.817581832f,-0.803204536f,-0.78834343f,-0.773007452f,-0.757205844f,-0.740948141f,-0.724244058f,-0.707103789f,-0.689537525f,-0.671555936f,-0.65316987f,
-0.634390295f,-0.615228593f,-0.59569633f,-0.575805187f,-0.555567205f,-0.534994602f,-0.514099717f,-0.492895186f,-0.471393734f,-0.449608326f,-0.427552104f,-0.405238301f,
-0.382680446f,-0.35989204f,-0.336886853f,-0.313678741f,-0.290281683f,-0.266709745f,-0.242977187f,-0.21909824f,-0.195087329f,-0.170958892f,-0.146727473f,-0.122407675f,
-0.0980141386f,-0.0735615641f,-0.0490646735f,-0.0245382283f,3.00000011e-06f};
static const float f_pitch_lo[129] = {
0.0312498752f,0.0329887792f,0.0348244458f,0.0367622599f,0.0388079025f,0.040967375f,0.0432470106f,0.0456534997f,0.0481938943f,0.0508756526f,0.0537066385f,0.0566951521f,
0.0598499663f,0.0631803274f,0.0666960105f,0.0704073161f,0.0743251443f,0.0784609839f,0.0828269571f,0.0874358788f,0.0923012644f,0.0974373817f,0.102859303f,0.108582929f,
0.114625044f,0.121003374f,0.127736628f,0.134844556f,0.142348006f,0.150268987f,0.158630729f,0.167457774f,0.176775992f,0.186612725f,0.196996823f,0.207958743f,
0.219530642f,0.231746465f,0.244642034f,0.258255184f,0.272625834f,0.28779617f,0.303810626f,0.320716232f,0.338562518f,0.357401907f,0.377289593f,0.398283958f,
0.420446515f,0.443842351f,0.468540043f,0.494612038f,0.522134781f,0.551189065f,0.581860125f,0.614237785f,0.648417175f,0.684498489f,0.722587526f,0.762796044f,
0.805241942f,0.850049794f,0.897350967f,0.947284222f,0.999996006f,1.05564094f,1.11438227f,1.17639232f,1.24185288f,1.310956f,1.38390434f,1.46091199f,
1.54220462f,1.62802088f,1.71861243f,1.81424487f,1.91519892f,2.02177048f,2.13427234f,2.25303411f,2.37840462f,2.51075149f,2.65046263f,2.79794812f,
2.95364046f,3.11799622f,3.29149771f,3.47465372f,3.66800141f,3.87210798f,4.0875721f,4.31502581f,4.5551362f,4.80860758f,5.07618332f,5.35864878f,
5.65683174f,5.97160721f,6.30389833f,6.65467978f,7.02498055f,7.41588688f,7.82854509f,8.26416588f,8.72402668f,9.20947742f,9.72194004f,10.2629194f,
10.8340006f,11.436861f,12.073267f,12.7450867f,13.4542885f,14.2029552f,14.9932814f,15.8275852f,16.708313f,17.6380501f,18.619524f,19.6556091f,
20.7493496f,21.9039516f,23.1228008f,24.4094734f,25.7677422f,27.2015934f,28.7152309f,30.3130951f,31.9998722f};
static const float f_pitch_hi[129] = {
0.0312501267f,0.0329890437f,0.0348247252f,0.0367625542f,0.0388082117f,0.0409677029f,0.043247357f,0.0456538647f,0.0481942818f,0.0508760586f,0.0537070669f,0.0566956066f,
0.0598504432f,0.0631808341f,0.0666965395f,0.0704078823f,0.0743257403f,0.0784616098f,0.0828276202f,0.0874365792f,0.092302002f,0.0974381641f,0.10286013f,0.1085838f,
0.114625961f,0.121004343f,0.127737656f,0.134845644f,0.142349154f,0.150270194f,0.15863201f,0.167459115f,0.176777408f,0.186614215f,0.196998388f,0.207960397f,
0.2195324f,0.231748313f,0.244644001f,0.25825724f,0.272628009f,0.287798464f,0.30381307f,0.320718795f,0.33856523f,0.357404768f,0.377292603f,0.398287117f,
0.420449883f,0.443845898f,0.468543768f,0.494615972f,0.522138953f,0.551193476f,0.581864774f,0.614242733f,0.64842236f,0.684503973f,0.722593307f,0.762802124f,
0.80524838f,0.850056589f,0.897358119f,0.947291791f,1.00000405f,1.0556494f,1.11439121f,1.17640173f,1.24186277f,1.31096649f,1.38391542f,1.46092367f,
1.54221702f,1.62803388f,1.71862614f,1.81425941f,1.91521418f,2.02178669f,2.13428926f,2.25305223f,2.37842369f,2.51077151f,2.65048385f,2.79797053f,
2.95366406f,3.11802125f,3.29152417f,3.47468162f,3.66803074f,3.87213898f,4.087605f,4.31506062f,4.55517292f,4.8086462f,5.07622433f,5.35869169f,
5.65687704f,5.97165489f,6.3039484f,6.6547327f,7.02503681f,7.41594601f,7.82860804f,8.26423168f,8.7240963f,9.20955086f,9.72201824f,10.2630014f,
10.8340874f,11.4369526f,12.0733633f,12.7451878f,13.4543962f,14.2030687f,14.9934006f,15.8277111f,16.7084465f,17.6381912f,18.6196728f,19.6557674f,
20.7495155f,21.9041271f,23.1229858f,24.409668f,25.7679482f,27.2018108f,28.7154598f,30.3133373f,32.0001297f};
static const float f_norm_lo[512] = {
-9.99999975e-06f,0.156587675f,0.230048731f,0.278548568f,0.314813614f,0.343789548f,0.367921799f,0.388600111f,0.406690568f,0.422769397f,0.437239558f,0.450393856f,
0.462451816f,0.473582208f,0.483917564f,0.49356398f,0.502607524f,0.511119187f,0.519158125f,0.526773989f,0.534009159f,0.540899813f,0.547477365f,0.553769052f,
0.559798598f,0.565587044f,0.571152866f,0.576512635f,0.581681013f,0.586671174f,0.591495097f,0.596163452f,0.600685894f,0.605071366f,0.609327853f,0.613462806f,
0.617482901f,0.621394336f,0.625202894f,0.62891382f,0.632531941f,0.636061907f,0.63950783f,0.642873585f,0.646162868f,0.649379134f,0.652525425f,0.655604839f,
0.658620059f,0.661573768f,0.664468467f,0.667306364f,0.670089722f,0.672820508f,0.67550081f,0.678132355f,0.680716932f,0.683256149f,0.685751617f,0.688204825f,
0.690617085f,0.692989826f,0.695324361f,0.697621763f,0.699883342f,0.702110112f,0.704303086f,0.706463397f,0.708591938f,0.710689664f,0.712757349f,0.714796007f,
0.716806293f,0.718789041f,0.720745027f,0.722674906f,0.724579453f,0.726459205f,0.728314877f,0.730147123f,0.731956363f,0.73374337f,0.735508502f,0.737252414f,
0.738975585f,0.740678489f,0.742361546f,0.74402529f,0.74567014f,0.747296512f,0.748904765f,0.750495374f,0.752068698f,0.753625154f,0.755164981f,0.756688654f,
0.758196414f,0.759688675f,0.761165679f,0.76262778f,0.76407522f,0.765508413f,0.766927481f,0.768332839f,0.769724607f,0.771103203f,0.772468746f,0.773821533f,
0.775161803f,0.776489735f,0.777805686f,0.779109716f,0.780402124f,0.781683087f,0.782952845f,0.784211516f,0.78545934f,0.786696553f,0.787923217f,0.789139628f,
0.790345848f,0.791542172f,0.792728662f,0.793905497f,0.795072794f,0.796230853f,0.797379673f,0.798519433f,0.799650311f,0.800772369f,0.801885843f,0.802990854f,
0.80408746f,0.805175781f,0.806256056f,0.807328284f,0.808392644f,0.809449196f,0.810498118f,0.811539531f,0.812573493f,0.813600063f,0.814619482f,0.815631747f,
0.81663692f,0.817635238f,0.818626702f,0.81961143f,0.820589483f,0.821560979f,0.822525978f,0.8234846f,0.824436963f,0.825383067f,0.826322973f,0.827256918f,
0.828184783f,0.829106808f,0.830022991f,0.830933392f,0.831838071f,0.832737148f,0.833630681f,0.83451879f,0.835401416f,0.836278737f,0.837150753f,0.838017523f,
0.838879168f,0.839735687f,0.840587199f,0.841433704f,0.842275321f,0.843112051f,0.843943954f,0.844771147f,0.845593572f,0.846411407f,0.847224653f,0.848033309f,
0.848837554f,0.84963727f,0.850432634f,0.851223648f,0.852010369f,0.852792799f,0.853571057f,0.854345202f,0.855115175f,0.855881035f,0.856642902f,0.857400775f,
0.858154714f,0.858904779f,0.85965091f,0.860393286f,0.861131847f,0.861866593f,0.862597704f,0.863325119f,0.864048898f,0.864769101f,0.865485728f,0.866198778f,
0.866908371f,0.867614508f,0.868317187f,0.869016528f,0.869712472f,0.870405078f,0.871094406f,0.871780455f,0.872463226f,0.873142838f,0.873819292f,0.874492586f,
0.875162721f,0.875829816f,0.876493812f,0.877154827f,0.877812803f,0.878467798f,0.879119873f,0.879769027f,0.880415261f,0.881058633f,0.881699145f,0.882336855f,
0.882971704f,0.883603871f,0.884233236f,0.88485986f,0.885483861f,0.88610512f,0.886723757f,0.887339711f,0.887953103f,0.888563871f,0.889172137f,0.88977778f,
0.890380919f,0.890981615f,0.891579747f,0.892175496f,0.892768741f,0.893359601f,0.893948019f,0.894534111f,0.895117819f,0.895699143f,0.896278203f,0.896854877f,
0.897429347f,0.898001492f,0.898571432f,0.899139106f,0.899704576f,0.900267839f,0.900828898f,0.901387811f,0.901944578f,0.902499199f,0.903051674f,0.903602123f,
0.904150426f,0.904696703f,0.905240893f,0.905783057f,0.906323195f,0.906861365f,0.907397509f,0.907931626f,0.908463836f,0.908994079f,0.909522414f,0.910048783f,
0.910573304f,0.911095858f,0.911616564f,0.912135422f,0.912652433f,0.913167596f,0.913680911f,0.914192438f,0.914702117f,0.915210068f,0.915716231f,0.916220605f,
0.916723251f,0.917224109f,0.917723298f,0.918220758f,0.91871649f,0.919210553f,0.919702947f,0.920193613f,0.920682669f,0.921170115f,0.921655834f,0.922140002f,
0.922622502f,0.923103452f,0.923582792f,0.924060524f,0.924536705f,0.925011337f,0.925484419f,0.925955951f,0.926425934f,0.926894426f,0.927361369f,0.927826822f,
0.928290784f,0.928753316f,0.929214299f,0.929673851f,0.930131972f,0.930588603f,0.931043804f,0.931497633f,0.931949973f,0.932400942f,0.93285054f,0.933298707f,
0.933745503f,0.934190869f,0.934634924f,0.935077608f,0.93551898f,0.935958982f,0.936397612f,0.936834991f,0.937270999f,0.937705696f,0.938139141f,0.938571215f,
0.939002037f,0.939431608f,0.939859927f,0.940286934f,0.94071269f,0.941137195f,0.941560447f,0.941982508f,0.942403316f,0.942822933f,0.943241298f,0.943658471f,
0.944074452f,0.944489241f,0.944902837f,0.945315242f,0.945726514f,0.946136594f,0.946545482f,0.946953297f,0.94735992f,0.94776541f,0.948169768f,0.948572993f,
0.948975086f,0.949376106f,0.949775994f,0.950174749f,0.950572491f,0.95096904f,0.951364577f,0.95175904f,0.952152371f,0.952544689f,0.952935934f,0.953326106f,
0.953715265f,0.954103351f,0.954490423f,0.954876423f,0.955261469f,0.955645442f,0.956028402f,0.956410348f,0.956791282f,0.957171261f,0.957550168f,0.957928181f,
0.95830512f,0.958681166f,0.959056139f,0.959430218f,0.959803343f,0.960175455f,0.960546613f,0.960916877f,0.961286128f,0.961654484f,0.962021887f,0.962388396f,
0.962753952f,0.963118553f,0.96348232f,0.963845134f,0.964206994f,0.964568019f,0.964928091f,0.965287328f,0.965645611f,0.96600306f,0.966359615f,0.966715276f,
0.967070103f,0.967424035f,0.967777133f,0.968129337f,0.968480706f,0.968831182f,0.969180882f,0.969529688f,0.96987766f,0.970224798f,0.970571101f,0.970916629f,
0.971261263f,0.971605122f,0.971948147f,0.972290397f,0.972631812f,0.972972393f,0.973312259f,0.97365123f,0.973989487f,0.974326909f,0.974663556f,0.974999428f,
0.975334525f,0.975668848f,0.976002395f,0.976335168f,0.976667225f,0.976998448f,0.977328956f,0.977658689f,0.977987707f,0.978315949f,0.978643477f,0.978970289f,
0.979296327f,0.979621589f,0.979946196f,0.980270028f,0.980593145f,0.980915546f,0.981237233f,0.981558204f,0.981878519f,0.98219806f,0.982516944f,0.982835054f,
0.983152509f,0.983469307f,0.983785391f,0.984100759f,0.984415472f,0.984729469f,0.98504281f,0.985355437f,0.985667467f,0.985978723f,0.986289382f,0.986599386f,
0.986908674f,0.987217367f,0.987525344f,0.987832725f,0.988139391f,0.988445461f,0.988750875f,0.989055634f,0.989359736f,0.989663243f,0.989966035f,0.99026829f,
0.99056989f,0.990870833f,0.991171181f,0.991470873f,0.991769969f,0.99206841f,0.992366314f,0.992663562f,0.992960215f,0.993256211f,0.993551672f,0.993846476f,
0.994140744f,0.994434357f,0.994727373f,0.995019853f,0.995311677f,0.995602965f,0.995893657f,0.996183753f,0.996473253f,0.996762216f,0.997050583f,0.997338355f,
0.997625589f,0.997912288f,0.99819833f,0.998483896f,0.998768866f,0.99905324f,0.999337077f,0.999620378f};
static const float f_norm_hi[512] = {
9.99999975e-06f,0.156607673f,0.230068728f,0.278568566f,0.314833611f,0.343809545f,0.367941797f,0.388620108f,0.406710565f,0.422789395f,0.437259555f,0.450413853f,
0.462471813f,0.473602206f,0.483937562f,0.493583977f,0.502627552f,0.511139214f,0.519178092f,0.526793957f,0.534029126f,0.54091984f,0.547497392f,0.55378902f,
0.559818566f,0.565607011f,0.571172893f,0.576532602f,0.581700981f,0.586691201f,0.591515124f,0.596183419f,0.600705922f,0.605091393f,0.60934788f,0.613482773f,
0.617502868f,0.621414363f,0.625222862f,0.628933787f,0.632551968f,0.636081874f,0.639527798f,0.642893612f,0.646182895f,0.649399102f,0.652545452f,0.655624807f,
0.658640087f,0.661593795f,0.664488435f,0.667326331f,0.670109689f,0.672840536f,0.675520837f,0.678152382f,0.680736959f,0.683276176f,0.685771644f,0.688224792f,
0.690637112f,0.693009853f,0.695344329f,0.69764179f,0.699903309f,0.702130079f,0.704323113f,0.706483424f,0.708611965f,0.710709631f,0.712777376f,0.714815974f,
0.71682626f,0.718809068f,0.720765054f,0.722694933f,0.724599421f,0.726479232f,0.728334904f,0.730167091f,0.73197639f,0.733763337f,0.735528529f,0.737272441f,
0.738995612f,0.740698457f,0.742381573f,0.744045317f,0.745690107f,0.74731648f,0.748924792f,0.750515401f,0.752088726f,0.753645122f,0.755185008f,0.756708622f,
0.758216441f,0.759708643f,0.761185646f,0.762647748f,0.764095247f,0.765528381f,0.766947508f,0.768352807f,0.769744635f,0.771123171f,0.772488713f,0.7738415f,
0.77518177f,0.776509762f,0.777825654f,0.779129684f,0.780422091f,0.781703115f,0.782972813f,0.784231544f,0.785479367f,0.786716521f,0.787943244f,0.789159596f,
0.790365875f,0.79156214f,0.79274863f,0.793925464f,0.795092821f,0.79625082f,0.79739964f,0.7985394f,0.799670279f,0.800792396f,0.80190587f,0.803010821f,
0.804107428f,0.805195808f,0.806276023f,0.807348251f,0.808412611f,0.809469223f,0.810518146f,0.811559498f,0.81259346f,0.81362009f,0.814639449f,0.815651715f,
0.816656947f,0.817655265f,0.818646669f,0.819631398f,0.82060945f,0.821580946f,0.822546005f,0.823504627f,0.82445693f,0.825403035f,0.826343f,0.827276886f,
0.828204811f,0.829126775f,0.830042958f,0.83095336f,0.831858099f,0.832757175f,0.833650708f,0.834538758f,0.835421443f,0.836298704f,0.83717072f,0.83803755f,
0.838899136f,0.839755714f,0.840607166f,0.841453731f,0.842295289f,0.843132019f,0.843963981f,0.844791114f,0.845613599f,0.846431434f,0.84724462f,0.848053336f,
0.848857522f,0.849657297f,0.850452662f,0.851243675f,0.852030337f,0.852812827f,0.853591084f,0.85436517f,0.855135143f,0.855901062f,0.856662929f,0.857420802f,
0.858174741f,0.858924747f,0.859670937f,0.860413253f,0.861151814f,0.861886621f,0.862617731f,0.863345146f,0.864068925f,0.864789069f,0.865505695f,0.866218805f,
0.866928399f,0.867634475f,0.868337214f,0.869036496f,0.86973244f,0.870425045f,0.871114373f,0.871800423f,0.872483253f,0.873162866f,0.873839259f,0.874512553f,
0.875182748f,0.875849843f,0.876513839f,0.877174854f,0.87783283f,0.878487825f,0.8791399f,0.879788995f,0.880435228f,0.881078601f,0.881719112f,0.882356822f,
0.882991731f,0.883623838f,0.884253204f,0.884879887f,0.885503829f,0.886125088f,0.886743724f,0.887359738f,0.88797307f,0.888583899f,0.889192104f,0.889797807f,
0.890400946f,0.891001582f,0.891599774f,0.892195463f,0.892788768f,0.893379569f,0.893968046f,0.894554079f,0.895137787f,0.895719171f,0.89629817f,0.896874905f,
0.897449315f,0.898021519f,0.898591399f,0.899159074f,0.899724543f,0.900287807f,0.900848866f,0.901407778f,0.901964545f,0.902519166f,0.903071702f,0.903622091f,
0.904170454f,0.904716671f,0.905260921f,0.905803084f,0.906343222f,0.906881332f,0.907417476f,0.907951653f,0.908483863f,0.909014106f,0.909542382f,0.91006881f,
0.910593271f,0.911115885f,0.911636591f,0.912155449f,0.91267246f,0.913187563f,0.913700938f,0.914212406f,0.914722145f,0.915230036f,0.915736198f,0.916240573f,
0.916743219f,0.917244136f,0.917743266f,0.918240726f,0.918736517f,0.91923058f,0.919722915f,0.92021364f,0.920702696f,0.921190083f,0.921675861f,0.92215997f,
0.922642529f,0.923123479f,0.92360276f,0.924080551f,0.924556732f,0.925031364f,0.925504386f,0.925975919f,0.926445961f,0.926914394f,0.927381396f,0.927846849f,
0.928310812f,0.928773284f,0.929234326f,0.929693878f,0.930151939f,0.93060863f,0.931063831f,0.931517601f,0.93197f,0.932420969f,0.932870507f,0.933318675f,
0.933765471f,0.934210896f,0.934654951f,0.935097635f,0.935538948f,0.935978949f,0.936417639f,0.936854959f,0.937290967f,0.937725723f,0.938159108f,0.938591242f,
0.939022064f,0.939451635f,0.939879894f,0.940306902f,0.940732658f,0.941157222f,0.941580474f,0.942002535f,0.942423344f,0.942842901f,0.943261325f,0.943678498f,
0.944094419f,0.944509208f,0.944922805f,0.945335269f,0.945746481f,0.946156561f,0.946565509f,0.946973264f,0.947379887f,0.947785378f,0.948189735f,0.948592961f,
0.948995113f,0.949396074f,0.949795961f,0.950194776f,0.950592458f,0.950989068f,0.951384604f,0.951779008f,0.952172399f,0.952564716f,0.952955961f,0.953346133f,
0.953735292f,0.954123378f,0.95451045f,0.95489645f,0.955281436f,0.95566541f,0.956048369f,0.956430376f,0.956811309f,0.957191229f,0.957570195f,0.957948148f,
0.958325148f,0.958701134f,0.959076166f,0.959450245f,0.95982331f,0.960195422f,0.96056664f,0.960936844f,0.961306155f,0.961674511f,0.962041914f,0.962408364f,
0.962773919f,0.96313858f,0.963502288f,0.963865101f,0.964227021f,0.964587986f,0.964948118f,0.965307295f,0.965665638f,0.966023088f,0.966379642f,0.966735303f,
0.96709007f,0.967444062f,0.967797101f,0.968149304f,0.968500674f,0.968851209f,0.96920085f,0.969549656f,0.969897687f,0.970244825f,0.970591128f,0.970936596f,
0.97128129f,0.971625149f,0.971968174f,0.972310364f,0.97265178f,0.97299242f,0.973332226f,0.973671257f,0.974009454f,0.974346936f,0.974683583f,0.975019455f,
0.975354552f,0.975688875f,0.976022422f,0.976355195f,0.976687193f,0.977018476f,0.977348983f,0.977678716f,0.978007734f,0.978335977f,0.978663504f,0.978990257f,
0.979316294f,0.979641616f,0.979966164f,0.980290055f,0.980613172f,0.980935574f,0.98125726f,0.981578231f,0.981898487f,0.982218087f,0.982536912f,0.982855082f,
0.983172536f,0.983489275f,0.983805358f,0.984120727f,0.984435439f,0.984749436f,0.985062778f,0.985375464f,0.985687435f,0.98599875f,0.986309409f,0.986619353f,
0.986928701f,0.987237334f,0.987545371f,0.987852693f,0.988159418f,0.988465428f,0.988770843f,0.989075601f,0.989379704f,0.989683211f,0.989986062f,0.990288258f,
0.990589857f,0.990890801f,0.991191149f,0.991490841f,0.991789937f,0.992088437f,0.992386281f,0.99268353f,0.992980182f,0.993276238f,0.993571639f,0.993866503f,
0.994160712f,0.994454324f,0.9947474f,0.995039821f,0.995331705f,0.995622933f,0.995913625f,0.996203721f,0.99649328f,0.996782243f,0.997070611f,0.997358382f,
0.997645617f,0.997932255f,0.998218358f,0.998503864f,0.998788834f,0.999073267f,0.999357104f,0.999640346f};
