// generated by tools/gen_poseidon.py
module neptune_t14 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 14, RP = 57, IDX = 1,
    C = [0x595de597c900f4c763b7fda14bb29322b71ecfc5da558f36f6e6e6412b05e775, 0x4d58dc046de3bc3549dada7c0a770b61f09a9418881d27914377db13e83552fe, 0xca6b82f83a489f1d783b4a800f675b4b5464659039a076b6c4cb609ad841e5a, 0x3c84f487ca3b0d3377be986025c143c43ce2efa12b97779fce545fceb6636737, 0x5985b5df52f27b8eb49ca79361cb1972411604098ccc5c5350e8bde10c5e5623, 0x31a733ad19851ef5ead324a76fd1d6c72d2758ae00ffeafd5a97178c43a096f0, 0x482699310720ad31dfffdb8ebad7b1f28a0558ebef9c720c3117b92bca27e29c, 0x4bc6c9539d8c1f7427186f4f40635b4671e5f1e4b49e8bc5095cca8bb819d2d, 0x70f0ceb1b047b9dd8f29f9e0b83f04a95a0902dbb6f194d4749efdb3fc2c6f97, 0x3baec3aa2dc9338e9b225c3ebd997760c1cf3e9107ed22f534a37e3e956a3df2, 0x2410f802870c996d0eebc3408c14a69d9d89f1cd129867928931ae5a7a6d603d, 0x32da0c94a7002539878a33d39926ad920f19406c69c38d0c7750b8e41b2e421f, 0xe729d2bd2c0cf2d977b9f1d0d2fadaaf9f2041681a50c5756cbf7dea7a4aa8e, 0x48d020655f8c3169d9554f515eea8036d23880d0b00a4fa22a5b34ab740abb66, 0xc1bf32a2270b59366de74eae94f7dfabb383c2fbcb0b8ec46ce5de41370cca7, 0x55d6a4d37afbed49251853a48b09a9731539bc88342f98738b25d7ef33404276, 0x14a791926711cb4732af90d81464135ade434a3af0273670fd058ebc3af8d71a, 0x5edfe70a7098b3dffdc0012945768e7b333963df171017803c9cedaa8fb295b0, 0x1549fdfbf750547450500489592fabd6821caf650f4eb7f594aabc0debae9bac, 0x2a88895927792afb8f9876a8e0c7d96dc8bc1605088679b74387fef757d5f582, 0x6182caced92433a52bc93ead1282b311592132d49bd754ad0e5864a0894b3f42, 0x3e36f7de9644fd778b73fd97b0686ce56df12dc70fb4b953bbd96639c59b176d, 0x3e0ae0e4dfdb8ef22c26a6a9f7a8e899571915cdff715d06d4410724b03197c6, 0x7f1265501dcc063fd5f01dd605f05ac76e76fbfb9a8956946e2a7dcc287c2ea, 0x4a03ba7d801feddbaef78c34b47a3f092c034af6eebf080c75d2ff3cd9de9bd9, 0x30a22d278dda65c7953d04958d2452c9fd980a32339e50590e25c1d92166e173, 0x2f0495bba07ec85d674b55b0e15ab23f2947a1905b8b122d00e7c48598cba2a4, 0x127cbd6cbb47955e929ae8d3c54b9e591ec3915a0d27b85f5fd6829f668573de, 0x55d05177597a1246533d513ce294f573ef296e413a80d47471e1775a00cd8db5, 0xae8257ed7463c61eda9c77563f434443e361e346db718da6d41b71a38ee6714, 0x3b8a05720fa0d0457f4a9b9f6f3a4692b3df8b14513570e192bdd08305a8b863, 0x360280f09c3e199be538bb8db59d141293eff4ab5820feba8164c2a87e5310d, 0x4817f4ba2faf10cee7d178257cfbbdf6e494100797dd24c9cbb7d5a61c0ded3f, 0x4db0ee3ea602ec06fa081c23eb93d2f57daa926eb9013198614b69a22fd4d24d, 0x3a840006c142be5141817555f06019b720804a85a6ffbff7657c0821615a92b9, 0x54b4291e37ff80c146fe69c19eccd68a0f649b30fb9aeed99ad448bd1a7fbe87, 0x5f491faed1e8dd6984e581a849378b5ae8cdcb5a202bae813ece5a12e1db2d4d, 0x1d262ec2401cd6abf015c5b76df950e29684fb30af580f86508ea23c9442123e, 0x3420d6399cf5f39c53919a4c9cd0dec6ecc68d3f36a2e104ff2744490e9a23cc, 0x5ef0dbda1c52d262837061ee7aa0e1317b3dc5e7b5abc8c0ad41310488b6ea2f, 0x52ad1d751640c54ba379d5c318863e6e7dacea0c7b19119f9bfd75b9fa266cdf, 0x593d7234e67cf5ca06e2856a40af33428b48b31892a678a360f9111f6e81e185, 0xd4cc90ae0f7a79b9ccce3219e92fb818fe3690bdcdc7e6a4d863ddfba5e6670, 0x34146dc22e5b8928b1f9ca0e6f93941deba3c721d6073bc103ccbeeb7b3a1ea, 0x6de7ecc5083f8a9f751ad8a230e5b0af4512307ae9c4318ca01d6c3b27c1ac8, 0x7372393b1e38d1a8f4200addede6c652c453138547200d58dde48b62b2a7f64f, 0x13122825cea4bcce30396eb7f3a31f292525fc44d13fe8e013d4e98ce4c6bef7, 0x45f3e768ce135883af1e03e15fa04f3944199709b17f5e5b0361cefe028e9844, 0x551b7207373e37a017e456e9e74f721ed39383f34cda3ed9efa2d533befe40ad, 0x3d6809d518f92defd750eb7806a9742db16696bd483e1301cc9818adc4f5333, 0x1ae55acb06d347e2f0858f94e7cf3035f71ceeefe92d8b8423cdd1ad9412710c, 0x1ae4ae5eccef39515f24623010be1bb013b602dfc4237afb03a5dbed337816a7, 0x5570e8b85507623eb8597f6f918be5d9accba6e749d07cca5aa54c4d61125892, 0x67212c02d86e91266f249a71f9efea77bd48a43bf18a054886ad28911ceeffb9, 0x5d75ca99ee681bcaaad42ce5bd74b2395d668f2a5d24c986fefedf324fc18a2c, 0xcbef907d56a048939f71f823f1772b2130a281e408e4af41ccdfec686317ae9, 0x5817c5f54656f1d60f9ac716439538e0f4b638807da6d2137ead68b20ac42124, 0xdb3fb6d502d05f1e1e33d360c7d2a9625fa0a3dd22062449722a3f47a752199, 0x9e9dff2acc0d42a814f46cf9ad0c3f9fa7b5e4507d32cce29656f882cc601c5, 0x32b3d6fbeaf6fd767b35bb743210f0edeb0f5c680ef1e5e04c1d5e50610a6099, 0x44136998a7c995ef89a776bf9935e0a098594dc0148556b9f20f55b1614a4d7, 0x11b385196f2ebd65b7869a738b4379c78c93f749a91457cf4ce59b3ca7741c4, 0xe21e95070e1c00ff1d56727389d5d1766eae8e2820ffa28d2724c6db087ba51, 0x65f98f52b4eadd4155c9a3c4699d698251a78a252d4830bc32442736b86676e7, 0x254c3230db54716c017d5b31f86a410d938fb1a3358a87de67d406577a7efd7c, 0x36f709d3acfcbb986ba73603b465ff4e4d8992dfc2f987402e087d2dc7c278c1, 0x30b47c6b474b3a08f2cb6c39d639fce04b6a4642453c369664b8c7340567374f, 0x32468a6ac65dbbed6cb06f834d04ad39b25a330e9080e57be8c5d490973e5026, 0x67d23245a71dcef6a99861c2518bb67536713441a22282ad0bf674b498ac029f, 0xccc57ede70c69c38106fd481f1f88c075209948eaec18ffafe5c53970abdb8b, 0x40f47c8d47e0c8d5b5bbaa3e46ca661081010312d661b1bcd6371b518132d7e7, 0x7329c08b1994ef225a5dfe63e8a5e23b86f80654669f1ddf06b8cb1a1f20eb07, 0x592104d02a0ada424dc1b2d2ee0869521a8870c371b9e5e18639d07e461eff1f, 0x5e8f046a95380cb9730871e067b5da0b98cac3b89e059957118af67a7c4ab3db, 0x2688b3465a26ac1db336fc3f0ca9c26fc3619402ea5aedab7d03eac2f87f2b1, 0x71fe48ad8d646a67f41f4488425a26efcf4557eafa28f722c08359b822df4772, 0x3db46a02bf756b448e535f4b2b784cf85158099cd432d1dfccffa66654d410ab, 0x114358d1c4331b0e2e3cedccec8153c9703ca65ee0bc513a0894f42ce9d576f3, 0x448d79dea74331a66be12a3f85b126f8d4e77cb7c2abef3776be14e9494a87d2, 0x18425a2a5e1d6d063e9c7c083cbcf2c14039f70c510da57b2df7ebc5e099dd9a, 0xb883ced6368c2e6af7835e01aeb1993b7fde11d1ca36d399801461b21636cfd, 0x25a877c1b9edb48f6f83a635dd7d97596d4febab4cb8000465d80b4593d866e9, 0x11500485297fe8732cff6927c44369002824355346e251ddb17eadb435e7517b, 0x67ce9424ff33f76fcd6773e038c40a3a72f90c5ccef3a1158f32ad3b1df8a79, 0x1e738da525cf66ed351cdf7920ddfb2052794cc5bf8d4c59bba67b538df537a1, 0x1af6e592948d762cc4243a11bfcb1dd5b3c4c153e9085a5682824deb0c8b756b, 0x158753828316ffc166e4b2725ee2da0f393b47dbea9e8345619dd7654250221e, 0x5f78f5e172f9d69724868d42cb096fd3354aa502dc58866d3dfd24a68ef24b54, 0x2f5adba7f6d9bd6b0d197eb540080111239e0dc8b4d8b56a6434a02f15285fd9, 0xdc9081dced611ca203cafc718a67c5744d032a85793a41c63c6b83c19e3639c, 0x349eeda70c7525526e5f7aab091a44d348063541bd29d64d88cb1181d385939c, 0x429a51d80110e3fe9ce18c966dcc4835b28dd767e504e21dc9f720fb94700095, 0x25688a4e159b1ac93d9efd339cb2f6ae92e1bec1ed6ea6d78bd7d40643e0ff92, 0x54b3c9292b390b88f6b539d7ec31af85443db755e0b1362c165a9c2c85f1ec83, 0x5da1198c98126228e87729e2c90143c709f141c7974da7e5c1bac33316fa2cfa, 0x6989f16a09ede866997e2ee5cfdfd698bcbb9d6ca46d38f6247aa0fb471b19d6, 0x7f1034be1e8af970f062c391fb6da841fb3ee42f61bdd9ae7e5795d588aca0d, 0x6afbf97d344b9c51b5756e67d75bcefb667fb96293fa9ccaa8fdef594e0e70da, 0x381c64c4f5e6fc67f83756311f91330c018e0c2eb4e93515ba9b8b69806e134, 0x2c3c3be27105ef40786faf5cfba7c0632aa632d46f03b6d1895632e300233c6c, 0xa42d0172995df7b88501c5340bb51e94a0c370086ce59de460c870ca654874, 0x75b28593075b5fe36115aea415d35c03bcea75053249c08139c18129b545470, 0x15b85de589193d50a095fb482d39a8f707e8380755ba402773d171d9c74e9545, 0x3eb7b52dd978dfd1f12c64dfae95836c7a24619080017ade9f07ea0cbd4aac05, 0x6cfcf87a2838d1d7e740ce96342dfbfa73e298bb9349cc7a1a61fc6cf7e58064, 0x59c52771b78d8abeea2120ee3756cf6a4fb41c28dcf93742386927b59084d7b0, 0x295f2f56f3dcbd23087b27b9fa8b1ba3d0abc3a9ad3e740fd519b412670e4f97, 0x46ceea17c1c0c2e54dd47e6110f4aeaf46888d4c6185ddfb90a1ed6b7d4212fe, 0x4b2531e244923181e67fd2daa20894d6a4c75aab47363d8e55b3fbcc8fc1cc4d, 0x372991ec7c19eb25f204ae3ee5af18c41f2132beaeb76e5ee873dd69b5dc22e3, 0x24042a6618ed02a3e5785da529784fe3a705d66d501097d49ea980e82795b7de, 0x519c0bba9c7d577227dbd9535e42dc11bc15b07b77b358ff7f1661b3ab50a3c4, 0x2e410495745e25a51f7a4ad542575d20c418544e0c4f05cee29e6cf2cd2f9779, 0x1a750a0470badc528f7ba7b83da576be7f72046a4e7b03d5dc81fa23e8a9e69e, 0x6b0b55de23d3302972450245a8cb0ecdd4045da09f55db2f53b0b9d6e7919322, 0x114a5f6b480c0335afae50822aa5016d2fc5b047757298bde6f4f3d6d0e97f64, 0x21890e2faa1145bc52cfaf044972f4c722c9211d2996a526476f3d552ac6d002, 0x1436a5a4ddc87ad57fcde4520c855b71d569f3ab140425a1f177a051aa2238bb, 0x75a841a27715bd0c54dbaeb8004ffd68a6350f0ed94a986a24a66b7317757f3, 0x2ae117e8e9e333bc818d1369c3127cb5b7e3c3413793e9bd87c2636d0893211, 0x6ba8c53b0c42c78543d57cdfb1bc1922c0770e8e5c57dc8c138750b0df6eb028, 0x25a51f6f09ecdfa385ddde1a80a576bdbe549ea4f7d9799079e901824f04b5c4, 0x4f487f4d83837f61ab73dc30f92718fb4ea1e8c07cff7655e578fd201179e5ad, 0xb300ca95238a224204f3c00e3534f984b60ec4c1fffb9b74ffb8bf1aef9f7e5, 0x24e450bb9f2337c13221b19ba3961cb197c13c12813e1b941350fb9d649755c5, 0x722d7afb41a0df36bf625cd8d9204afd035868eba5bc2cd06809c74d058c48e4, 0x6b9c13a2d02d9cbd5e6839f2f51f3e7c4a60636792285d57e4421481aa765477, 0x3b7ca3550b658af5fa5925b03fb47f4e28d15b1cd54469c172a1a332a4fe4fdb, 0x6b7f5d473f0e3005f5713c3041881e2da6605f955c29fa3556291433829b1fd3, 0x72a54eb32cc7984e7175d8bd89c42801b039d4607596a30ea16d83b4d1d37972, 0x23df15b1828ce2877ce5c362462b1f9522854fc335f4d714870fd69afb47b722, 0x6e5ffe5ea5bd3e3858332a05ef971c3be5ac453a66d27c5d7dd56a5eb9a71a06, 0x43541a38178f08d5e0b514ca755a1c3c7dd8b31a98fb399bd7136d6c40bb03a7, 0x48f600af6e819a0083f5c66c5348c6afbb6157dc5e8962077dad4dd2ab74c3e8, 0x539e5497fdbee7e64017ee392bfea621e066e87bdf1d983f5774d4c4835c6da6, 0x165d905408aaf105db03b1c174ae2302294c38373e990f266ef75a4914e46b65, 0x2816afb64118411f25e3e577f4b5f3ee9c2396eb95110afec0623614cc5c9310, 0x566e8437372a63d91ac2399242dc7bf30894ee1a10e01afdc1f9eedcce07149f, 0x1bddbc21e76b514499197cbdfd840b64f5cab76bf09c3cf74bc52139d954c132, 0x1e617ebcb3263905436ed1d57070008d7637208e539d7e1cc2057d55e8de1e2, 0x25a5e3ce7866aac1ea9af5080399eb3540327e05da6179510e5b89f59b9fcb69, 0x33e4b5803fd23d5e6144eabc272a0881b72cca9111974a2a0a1f79d61a4e2fbb, 0x51ec8d18e73046445520f9c3b89e3f5a3d5aae042f5d66d0cec07b4131f7d43b, 0x2e7b7a101d9a69e3981fbd711b5799d3a8cb5299c0f4b9b8df9c7dce0bf1f1b0, 0x5aa62afc9e2cd01d267f4a13d15f6b965c1677e7e30fb35196600dcc94107a9f, 0x5a3e0578ad189dea24446264a5fd298abb21d523dbd5a2472d4b0d5fae2cb14b, 0x68c6145b989746788a902b52aeb4331790326d4cae8014fd64919bec84c1c150, 0x46cc96f26945b6baedef961aa3af9d9211547926294ccedb6990542cc5419a33, 0x1425ac3e6af49b517c4cda64c90d7af8b51093885e95e5e07bc7f7a47531ff84, 0x407ab5b2087c62401f36a917e9d668a0d09c5dcaeb6c88bd3aa5413ee2d6d58d, 0x10b7fae3a82272d9e629e6d60cbdeab35cbf5739dd13edf683b5e5b0e9e859d1, 0x1f8e817b74a6e7f4bf1d47ecca372405c4ec0102696ccbc09aeada474503a29a, 0x73ce73d5942975fd9153f5a2c5a58d5a29af3ba1b9151f975b10286b874ee808, 0x52592a14e887ebf4d8c388b5ac4173e2c3318b251104c33b7780ec38cabeb978, 0x3c5e6309d5b374ee0eea827a051795cdd5611945f6f90661531912b5655fa14, 0x381ab889fa3b2ef97a23276db5b4e43c6d2045a08a6cfa62d8787e39e53212b, 0x2bbc12e7d28f6da5a2dad4e022f7f44afc13a7cc8d7b6f0baba339d72681ff4d, 0x501599c7d45d2318d78e378965c41b7828d81e30ea85a4b776069133fec3a09, 0x5116adda8ec251647bb4aee383a94c8c7161711450e972116e3f47777b9df576, 0x67f0b77cda2477cf238b27106eeed78c9971188d4b3bd0a2e356cb923c7a9ea9, 0x53987db7fc62af706030e9c4ff8475b5efbf6320d7d0dd407541f357f23adb04, 0x2d1d0cd2d91f2083546207db3b0ea03b75e14720ff468c36244ca465ccb686d9, 0x3474de31785a22105f59863170098262d95f2d717628e65dc8eb770e16b42aff, 0x1cb9fb1613e16a2688b096355fb9e761b157364dd47961f8e5af35fa33af6d8, 0x6fe3e6f5ad889f9afb93ce108f6d26675fb02dc7477217e41156d5d615672857, 0x54aa8071af0f5aaa8d00eee042b86f46f8f694940324bf561f340e968958213d, 0x330797850252ff589ebdfb0497bc5d14d088f7154e9f65f6df92d9f9f33ba49e, 0x1b1c94031a94c7c6804bbb20cc290de2d96e26fd6a6b65bb7781d6b8d1cf5998, 0x3ffd637e8c000fe96917b8ad1f5a4a645c317f20326907a9a564319ee3ecff06, 0x720bd14968af22f27d45c5369e35af8ab8cd963c784a843f027873a15489ef6c, 0x1548844bfbab215c16c121b2236054a834e9c410608caef0dfdd89740ce073ff, 0x4f8d7fcde7226c664b111a529991ddc7ae14d5e23f3f66efa33c416dc1bcc3e7, 0x6b0060bb21f176ca71b9151a5b9310098d2681ec7dcf6ff0a6e5d73b7d5206bc, 0x4b10e7711b673a2778b14f6dd1d53ef0b318ba6725805cd9db4d9d2d783fe702, 0x3f74649ec886d7c87f445eb42cad76eaf51cf163dc1296c7e3695e9bd23faf37, 0x24606b4f669c48358c92dab07c41267c62938fad436535ad57578c3eabab667a, 0x7dca66b2093c755ef2ef0f45e60d45300a631f5e13aeadbe7e7f30189c52c5, 0x4b1d750543f8434341b5b38af4d3e295d0f84675ae90f3887426327a36225a93, 0x5232343b3960b8cafeccdad06e2be573a49501150caeef94ac25c9a96817d9f3, 0x3e355627b01b5f2f514b596243fc2301a20d79a59937f1cd2c99258e1c74fa57, 0x5a7863cff110e854c7e78e47df8da4332f7f7f7bc46df2a956c80e1314547253, 0x32c9211e2ce06e2e8dc3ddf5123d5fe7bddf1565d7ae9896bf4a3ae81546453f, 0x34f81292d7e203d0983959b8c3fe6b7dfea2c5d6af06af3f420e37621dfa1b23, 0x2be289b1fee84364761e10be25ce15546c9e1ea5cf8ebcf186abed730ecca68b, 0x63ed3c60c40e9d2dd86737b540f07bdaf8821c275b077c176eff7707059a3ef2, 0x276553d9e3635d36dcdb460c3cde3a99aebbb526114a77b2f9690ab5243e577b, 0xc58f2ee76628964b34c3946cb104cd1a3fe64849685d045fac3eaa9a4c00c2d, 0x4352a1dc12f36123b85e0750960a3d8ed9e73ef0b55bcdc626014c51bc1e673e, 0x721a77c58e5b33bcf605a2f6f19eb223a9ad18705e0d83ed1c0ef6f0000d0813, 0x2784e78d5472d55f6364ff2cf9d2c1694fc2ca3f7fa8bc9d0a41683209b2951a, 0x5f7b3f45cc640e600b2d5c940d6bc54459386fff509e32e63eca894ab4bb4f3a, 0x1d0b7809355d6b866bb7cf0e10e36e49101cd0fd455f89125db9e643f498b216, 0x274c81d0ac7cbc29f74a38ef01e6b4bcdd0069d2f8548d7ad495c9938c456e21, 0x6f2dd5d5be10ca299ec7fb882b9827a810983ad3826ad6e5ee52279eadb02c1f, 0xaf54861585a5ec1cc5b36be71a28c3c6ee48ca3cb3bc1b7006033c3c57703c8, 0x10914d0edb3d1b8d1f2873c33fba82a7c2f3131adb69f2a32013830786216a28, 0x1cc6bcb763fa08d096d89bf83f24cb4c3ded20918da2ebc63412261f39afad5f, 0x662a65769b72fc1afe3cdd3a48b8c3178de496d0fe29e2f88d24efa09700e359, 0x1b7cfcf45035ad7b78e1944dca796f9f17a638306b7eaf0097eb52953c5f426a, 0x50ed544fcb5bb2c297151daf4a1edeec777bb0170cee6b690172445c6bfef9eb, 0x48140f528b1b3dce50763fb255629808e841dce757558093485d01ee04332327, 0x1f041f469526905e9664c3e3e9d0280c82c46bcc9db0bb8c0b4c47f1b48f49e9, 0x448836075330a5e8c5f07d8ded28e1f70e97f776aab94f420e810af51a064062, 0x48e7569556c6c7750abbd8ba29abe6385b7f0c9dba9a90ef2531ff963d53c62a, 0x1cc5e0c04dc37001c01b5c709aece24bd5e92159254119aa0c496d7896f32b39, 0x1907bc434739d4d56aff3d1c1a19eb66006672eb713772e87c10fd12f4f5dc67, 0x442924714a1702a6fed341f247d8199051cc252c5dbc9b0a75bfa114ee54bf8, 0x651021bb1a46d87702c4df9132dfce34ae9483eacb73887df5c5277fc80fa8f8, 0x1819b7297eadfbf458e95862cb9044617a6ec7d7332e975437341fe6904ce4fe, 0x61d7e8a35cc20ad269f9ce13f637cf0572b14fc7b404c630f7a746efd0f9e205, 0x3c382eb70ac12399d9761fa4781484a2babe385077777c3e9046c28c21cc1843, 0x272494f088b95e29123896f4a868d59e2e89fa0faf89ce97ef1cf867480c1953, 0x16535354d0f8c67018bd34fe6df280590459d71a2c39cf5513c6609fb2fedf09, 0x3ee0d908ff95dd30379868d330853156690d8b57c26c5be17b572514ad196bb6, 0x40bbcf44f40af1e86fd19cc42ee1f3169158030deb7bff56b4008f7e2750ef41, 0x148d46eede6ff8f24545e0333ed84ece699970638f726d6cf382239bc06e6e71, 0x31a892973fc56413abffb9f5585156c448af7eb957c2119b492fa24aebdf4321, 0x5f679c0c90ae2b16cb3f2e4e00f027042873d25b7ce4ee363564d03f31985a62, 0x4fdda140bc285218fa9f00a0e175a109790a23df0fb77c448cb58e468062ab22, 0x1f559c5a6b8053e14fa1393bba9ff6e9831c9961c1aafe595c049b32b594e07a, 0x18df0a37945360269bea3377195676cf6c148101a2cbb8556bba20662f0d9e3e, 0x611d2d6867f7859c5546cdf98933a10e5b0bc84a788ca4a7c0d36ceb89c32761, 0x65c5d6678420fe211d6dc49298fbcb4525f5aff2e31f8e196a5e0bdc2fabe8c, 0x3e7498a15225e00b7cf216d5278f9de3f2bf3418f5f6acf3ce873fd569917e3a, 0x20dab9175cd03f2fb475b99ba005ab86cbc2e64fde331aa919d4f299eda824a1, 0x50b608641f82503af66f0e627fe58ceb9fad94d291d78b15cd130251e3df431, 0x5aebd6bbac025c55c253822f0126cee139d0ac802006c531c72f2e3c9694d505, 0x4aa5fe4d002864f2e5174ab6f5df91b26b861cb8132c57791c47b2409ebfbaec, 0xc0f69028fce3d93cfdfa2f548aad0911d0f211a9c5faf2385994768b6f055a2, 0x2c889a9ba5872b45e9fdae6acc3b71db5a23c0006ab264eca0c3ebe6f29ee97, 0x6573c0f1ac797b89bc6f19b583e7fbb5e0834b689f09e74c2dab56bd26957c6e, 0x2ac6e002728460608ebf3357e9f16913cbe56972ea44136f5695e7ea0d0610dd, 0x3abe909a1b7a93516ef0132816c7ee08cdf225b73e6ad712eb12661ff7eed9c3, 0x86b68b9db7721307000a3d777cb11ec5735b9bb383f8d378e5220ad8dd0b6b6, 0x38f6e74acc554ed60ae35f8820c6556c863202438ef182b2ac76e1401f1fc563, 0x202b9ae5fcdfdc4c5a39e319601424dfce05e2e0cefd23cc89549c05a51f5573, 0x6445d4ad346a9eb9f4d77580924270c61fef6d7bb10d9ff53614c95619928ac0, 0x291d50e7dcf59cf4d5ea3d24899cf3ec9b93f11fdb79b921688240ad30d3c31d, 0x73252933a95bfa06b7e2370f51ebcf86ecd28f116f6ac4bc37192d0183f7f9b9, 0x3cf33bc0c096e1c79263502dc352dddec9db2d219da00ca8bee50b3408a1da8c, 0x55d127fb0fca1a5b9e3f6855737d73df9d701da26f666b0f1f13ccb5f70eb7f1, 0x104e41778234978dbc17166e33d2308e84df4713eeea0351f0fc756dfa8e5c62, 0x6d1bd365209654411121803ba9cdb6351e4e7f8785b20b9cd8557786e7ef924, 0x633bf537ab8ffecb5c6bf62d2cedde117eb46686878fb37f026bb7fc3369a9ff, 0x24b36b53eeded8f22d6b499c16017515bdb3907eb1535401786716f30af8f48a, 0x2edf23ba1a8241fa3f3f22b7f110428ecc65c645c70424d672e78182a00f601c, 0x661092acce267ca1375aa7bce69b6623494d732106e41be75ee9c29c98062d28, 0x68c53d62790c965978664b30f4ec2d77d0094f570b1463bdfadaa6d5363759f4, 0x11c9f9f16ac454fc4996d2544ad2bfe00757247127662b849683d0038be1164a, 0x49dc5163c4934d262a74c0b9f18e02bf8ff52defdba734a2e870edf6b93a81a6, 0x1c9a4d835bf468e0632e5fd8c80f9632a23eeeddf7ca6fb0320bc7dfd9018634, 0x6f012049dd896f9fc75f791caf30130b5ccccc4c2b4079dbc01b471c0fbf848, 0x21245fc5519efa556f3e7f586b0bca55e698c57b65ed3e16da2af6d75d1aa441, 0x5ca84b75beccf4b80b7d70afb4014a16af77f36be88bc2131d1dac20aad3ef42, 0x3d3a055c05de7dc858429b04c6e81243fb523aa8fb563e2546f639a0991dab27, 0x1ee9a35aa252a0dbbc22a48858eafc8f70e40f67c052cf7e29150a6c65fc3329, 0x17e2591fe22e1fde625f003bfddfbc442d7d018270de592552d611d26f5fba30, 0x336724240bf2754ee63abaa5d6646af3adaa1ea30ec3595a66e9b2519629f1aa, 0x4b92ccb59fc4a69510ed2d9fa2972bd5d8c4fb929368b448518bdc8957bcde21, 0x20f4b928dc690c82c510857c3f19444b38b83355c0e15ba602877c5f55e47d65, 0x1112331467a63ae9dc6827ab2b78e027430ef2d7f005ff6ce9bb499f6855ec7, 0x4971d7d6c92c972f66abe44ee605240c50b641dab355256b1f30bea9a3d83e50, 0x64011ebb544da7dd4b7623e5d61bad69eaba7ed63d3db35f1ba18e5cb7d249af, 0x3ae2e0062aadcecec05931deec4e4d73f1f0e3bc7499185d6f8b1af1c03a2802, 0x68775db54ebf3469b759f2d9fa6c818fade96692ab123e2c6f2d8b4546a0173e, 0x202477cd0e3adddde32c3cb5c97a93ef26c2d6023a097d9ea79302e223c587d, 0x5f26b83f23d67f78806f42e431b54e82a571272824c5804fb35958d6f5e1626, 0x1fa01db9de8ac38f931a3ab182ad943cdc0a35718cc22dda5217ad4ad7b527f9, 0xf78445d53d7aa9de815242887a1e439799f72e553b60ec2f21c6977d5ef2784, 0x14e748f91c15c78c5b688aef1f8ab73e8c44c3e2578e44218f200d3907090e80, 0x3386c02623f08cf3abc3f17d1c7715afe5d73b06f402ec53955392b91e0fe5d3, 0x5ecee75b2a945fcdbc6c59ea632a45c41b1756870e4f817922689dac67930ae, 0x7002f87d9f88140fb24671aa31459a6555b5e62a7f498c573e5f369c9b0605d9, 0x4f29d28773d3597318bfd0b1bc3c00717f6ae24346a76e6f065c01452d400732, 0x628571c2493f671878fa3ba4adacc5130b6c46b5742bdae17b6680c1336f4d90, 0x5ff93c0d68dd93d33950dcaef9ecbb8bc684457f5050446308301df77de88ca8, 0x2c020dd55e19957ceb98ecbade9f738f5ad3165233c7f4aefc89ae8a97ffdc4c, 0x22d9cabc69a7079fe6f91b26eeaf23e3ff8cdb1eead65d7c780c192e3e11f9c9, 0x6c73ab7f417b094fd581e914fb81e5cf19e8f3f42ac997cb9e5357134d82fe68, 0x29f613a1cf6ead997ab43fb900903b348fee8cd8626441aa4752768844800583, 0x549afe2e3ad78ec15229596a06884936e86a335a9b7a871f1aaf54c85678201f, 0x63bb09e543020539ee89bf701faf78b42e90e11cf5c2d6af01ff0c3a90464e0f, 0x55562353e567fee21ca0af5ec6ee520d5035331d9229f3f0adf4befbfceca20f, 0x3c09f4e8e48edf24ef46c01158523065b4d4041e5dc35dc2e1a8113f5279e563, 0x4c6033dd08a6f52eb14506fced9ffdd4e7eb6a145755667388ad511cef605d85, 0x2c178abe08133e3f6aaa7509399d2cfcb873ec41fd894dd9cf84bc5e32be0956, 0x263cea828796f719778f3bf66fe47941eab17789e4ea1913c8f85ab6fba0af04, 0x29db0975b1df1f82270d1d49df0f438c01c1b333aae21ad6a401045bd4c8c5a0, 0x393299e97e1ad1250839276ae8c1b2d387f9250277d4389abc33a93433e14145, 0xd8d2131b75c0c3f0fb5ff045bd7913dcc06effc49795cf8b19fdfc3a3f8d045, 0x3c6e51c76fc3db055c7dc64d19b372eb2efad0bf95ebaf3886c52c23e7a4bacc, 0x5afa3f8feffb4aa84f4acd905f5c55f18ca9b06f6b4b2752420dfaac64fc5fe1, 0x44310c58152733b44cf44c4a32f501017675322b9f8893549b1ca6ecbe5e0ba7, 0x204b1c8967558f2ee1dda74e093df303aa3808c3b9fb00729085e9c9448d061c, 0x1e318e159844ee8239dfb8e7e3dada4888d27ed1c2ed424d70b888bbd802fddb, 0x193e504a9d99d6c94e3e4cf4fb8fda3176d4e1992354064a33150fa9f6b85a26, 0x122673dfabede57d2e553eb854893766389795486bb5a3f6b46063afc26e5609, 0x51161b0ac8071cb97265e016f5fb1fc8bb21deefba17e2045465f629fb2d08d8, 0x113d418ef81d0195e13da114a020cb07f832cfdf8a9ca1a2f855f27645523418, 0x3b43f786cef50ee2eb6270166e3bc0e61e4e7cf2511ac4c5bdac05a320880d24, 0xc073f6fd7b503478ed0b1ba35839cc225854a9dad2f815bb3e9af9d633d0c0e, 0x597f96c797d1a51e24935b0771da5d6033482e8c99a14cd40c58bf74ef3319b9, 0x5b5f44607678d61158c481b4158f50cf0997e8aa591ea6a741d0e56f55b429fa, 0x91a7a26772fa546f1108c77b968875620f9a2c5cdad8ec155ab2325a97a0620, 0x5417c6a7202db157c02e3b00460ba7f8b20a35e72253489b2751e609bd8bd772, 0x15276702d318c0af66838f007e5b28feb98ccdc65458ccd62f3cce4bf98872d7, 0x2fdf8dea850db975f554f0fd409d0772d4f72ce3d417d80803f3c22518aa9cae, 0x35dfb1589b4189c2f71ccdb93e4e855f663d05dccc361a7e0945e5831db7356b, 0x50af2b2de2c7364dcd74d779fad6fd6959c068c326a4568b037dc7bf2af9ff8a, 0x28629907120f930faead2d145cd86aac95de719147e2870b6596f82da187e37, 0x5ac0be0c522817f4a302ea3981aa28604f7b5a0548200a2cc4da18447ecb6f31, 0x1b9aded2518d1cb4256a4db13d95bcf6693e7b0f1155890013ed773f7acf6efd, 0x2bc0c9d07bfd0379aefb1b3a16d18eb8c065e73792095dca36dd2b463784c5d2, 0x21610779004e352b24faf9b8c76f6e503b21c40e4de480fb74ec64f6bce4353b, 0x21d2865e75584a3077428fe82bdcfd8dd2d85be795058b3f13faf70dea49009b, 0x15afa3551376c216a12d190769894b89de7f6e0d9945c797cc76ad6d7afc99aa, 0x3e2b586a09ad17c3c5762983289753e4589d39efba275c4d893ad5b019a5712, 0x2f6effd2bf97aac4d7d9692cd2cfac807882a32a1d2248b241e233f69dc9d51d, 0x127bcf1f1d7daa7673a83879aa38fc65987387143c38279cb18de6c6bde4e03, 0x3a93b3687f22810390e98ea904bbd763c767355da921cd5993934f46c9e94813, 0x6ac060fec0eccb6452b03d0eca1618992e81a2af4b7efb45d022878cb09f8fb9, 0x36f755f082c81fa5b42b6ea94c1737ed096e1bcdeb8d846be3c5c8dddfa97dcb, 0x5aa4c800ca733ee1c7ef3c2ea45930c2c0e664879582ec1cda04228b6fa01d9f, 0x3059b09dc1e22a2975ba8bbbec70cc607f60925d7ea2e9394651460619b5e6cd, 0x419b26162e48947f20dccb3244a97b5349c1d5a49a78f144b1eca9a663906735, 0x6eac70ca3c493bb3c6f7e307c310934c9676f1d736841bf725b59d4540e83fac, 0x58cb94666d60d01ff8b484c0cd8d79b0663b4d143f68da751eb8fa3971245e4a, 0x587e0f20b771969031ce1c8cc502af4624e2add88ab10ca739d72767c783eeff, 0x407f3a076f60e59e13a1c94f4a47d080a51498539c458fa4e6fad60691d50c58, 0x4a5b8c86a07db36ccf7402f9a9058df43d748ed5f066bd576763ba82ae6cba6, 0x2c51733fabfee175d632524e2cdde00ba3ced465508dcc10e13a86c84622c0c9, 0x3b2ab1d3fe9343c81fb9e5aecda250617129771b3cd48180f0d2d388f2ee57c, 0x2d278f8871513b823cf7215fac47e6c62dbf33533b105b93b80cc033950caf8a, 0x41a9fa6ed115eabf759e21988c52f879d729eca8a2f69fc3a2245cdfaab0c52, 0x142ea16f8490f6b171a441a8f86ab0809e4367a61a5ddc4e4f8fd3f6dc6a543b, 0x321b5fc60acc2c89f0a2468b4c24ffc21eedaf6d5e18bbb684ff6ccc0800936e, 0x1d8f396878a2660c4ae1e932ce94d5ab4d7f1e04897716999bb1b66f801db72c, 0x3cf321d428b1e73fbdbb8985742a6ee51317bf7d3d940dd84abc1518145266d4, 0x419eb231fc6367e623529f325f835cc86c937c603974f84fa12f95fdf3ac5962, 0x69776453a071dd8e0841bb363e7fdf7ea73cd54b73c4ab318c92ad4fbeaa2ef3, 0xf03deb2fc57d0c4a5cbd34ecb65dd0f96d7dcd8cdebba1ac0ecaffa9d46203f, 0x48ed14e8052574942bf52c5d7c4a128b5a5881ac8ad764e2f73bc51b3740dd13, 0x13edd6b4fa4dd95328e2e6f62a3e5ef630b469eb463854cf1bebba576b217133, 0x214f88f453937f23c467e7044f273facfd008f82ccb858dca3515d47a071cce7, 0x89a98547ab434c3fd88c56814afdcfb5a06ad84620846659216a96aebc0fd61, 0x103366a1e7e14f1d1b9a6592b85a7fc0d107b111dc244416acd05ef2bdc89247, 0x147057a58d2a28eab4c5a5ad46906c5ee876cf45884dff1857d75b7742538d9c, 0x19a3c3cdae1f9e8f731b5b85b8af0c54b3ab932199b5fb3144a95da5c1db9510, 0x2853d54c6307815523210f35fe5a49a67343b4c74354e2232b43710aed524105, 0xcfa9fd1d18d2270c14b74571d60157c3bbc31c6adcaff5c15b1b33a3c4e3e3a, 0x109537ab9b76161d9d465aa7b1b30522b5f70ea50177da1251a6fa1f8603ce56, 0xd0b11544e11cb8a5bf425ee86de80404666b47ecafebdfccdf658a621a119de, 0x12b9903950c0b1fdf05b1704a2c2d9a4e6e372444081d78abe5d003fc03a1279, 0x3b4c690dee24cbc93d7d05bb95133d16ba1bedbbaf1f10aa5f990d324de6dd17, 0x1b2024c7f74a86df5704f6b5e9b95db1a5c41a039c58adbd4b63008bd890b931, 0x4e7f7d01dde1d7f3391782afa5e96686498134768fdd1191e39c9c1533d5051d, 0xb87fcbc8df2aececab7eb6a715452f3dd042b3427811acf3bc5dd03ab508554, 0x52e3ca2b5f40ddaf78be8bcbf90dec7f8ea6b510af6ab28df8528382b2ce4985, 0x34f47410e462ef1adc6790a96597b418b0e5c31868c6b36886f1d01ca8f7c455, 0x1613d0739f07082129fc783bcf390c08ee98a95fb89bb4515fc4d6cab78ff425, 0x49f9d4258d3d0a5fe06d1aae6a06e4a9df19aad635155ef4828928138d381126, 0x4ca85d26d2a09dec4fdbd19ffe10b99b7d4c2c27ced0c12dbc25134d71c58498, 0x3ed03e90eac0e94f1e06faa999fe2daa88310a4c9d3d883620cc1c2b75b0c708, 0x1fdc9d95341d90e1a4bf2068b55793271f5097c9734101422e5f4b66f5f78ad2, 0x4466ab71a931a356fbcf21904e6b6c7efef83db8b6ff8587438127c3375f744c, 0x737a918e64d59229516f0f99eec3b9bba174bac8f644d89b225a46449f429586, 0xc0596efd9c1d6fa876e47f5557490891498e2d6f858fed3f3bbc48019d81e6e, 0x72fab110e648f4b8468c090362e221d1bc661ef261435c659675163ccd7c51a8, 0x27c416b5420710f59fb939243e9518b1884cc9f5ffe9306b726dd8274aa2d4ca, 0x2c07cb9b95717dbcf2afba0c376d77f0fddd088de2db9f057c6cc2b1e34c3c3e, 0x66ea4d8216de9be69b1e33bf75138ae5b698fbabf3cfb55d192c746b52a388d2, 0x2693d6700a0797d97ec7391ba2c5f86a6094033006a32dbbe208584e0476541f, 0x2b671bd6c7ffaf5978959d073297a71cdc82b07f23d371a02ba9969300645d34, 0x1612d9a563b148a91d619f5be6cc3acbe3d6aa9920df60dae77e21e424975121, 0x474137cadfca104aca4a91ab7545a929c7cf461c83b8a4d12046e555dbe9e008, 0x8768714a6260dcc1462f5bc890c5703b9d1ec0dda1d5a0111c361bb68d6128f, 0x1f7c566e46f3c8e41de88b234d1f29b0828dfec5843714efc313e66d5b8a4fd2, 0x4a2203984526948aa3c7b2612df0f4e5b43257032f271da6e184093ff90ec666, 0x4487baacbe3b9dbebbdaab4969b31ecaf8e506c034b235514c1225c6e7002745, 0x1d19f0af1385110b51f9db27c28fa417b6711849ea1ee58132cdc191e7f13fa, 0x3a0672a2d1b6e31e66a70620087e0426e0c325f6a804c6a6bba15ea4171b163e, 0x63ca8b0e6fb2ebd479d41f6f62b6a3671800fc7e1c3141dd6a537719f2e9270, 0x33919fb385e66b9625c5919ce8fee1c654c52e8238c668c4edc8fc44aab6b76d, 0x2930fe909c77fcfdb29b885e1bbafcf64639aaed9d6ff76c1a8b5de81a30161b, 0x31ef3f4d2ef32ef7efd54cd550ee543aca397e614503ef50a9942d54d78d1e9e, 0x4d87287fd1331e1d14de6b3801efc8200c66095b3f31aa93e798772b0130256, 0x470a3dae77a3f823b182373b2520030582597a06b25783e8633142ae181269fb, 0x1b491a84ac76f582c8f36c71201c6b41fafb7b908cc0b18989a76255054d62d8, 0x29d261c1f3085f66b988f24ee3ddfc60b57354e6d29dfae13c53caf2c92acb30, 0x86c4ac3b068e6807e4a32b83353aaac79cfda1097c2a8269d9532d7034a5eb9, 0x1cea7784e2b50336b91faa94cb256ebef63ebd093239eaabe977b3326862ed62, 0x2d04371cbf4c9e2cd8e0a8115e20939a1d651a7ca44d867d541880c92ad38c35, 0x1a3ab415ffdee8f9d526ccf55640b265bc6fd69f4c9c884dc43a8809968c5d8c, 0x50f6e2b94000f0e1137d0c2ee19ba7c3051fed465d069d717cf7309bf64e4897, 0x20366c1ba2c713ef824cd59330320a992c90fcbbb0898c57a05a307308ca319c, 0x2ca025df260b0ff5cda248e29585dfb760f2f0eec3870993a621a8bebaccb8f0, 0x44199e5005d9143437f3b935ed071b02bb456d1c5684b4f4d6ab60d8679937ca, 0x49543e4be3514ab33abfee30aa1bc587359880ad4693ee5249c8fdee6cf109ab, 0x42847e4cbab3ced8f32efc49a7874ceec2d3657abf977ece6a8405ea6633b690, 0x3e4b1d96d4a9b44472ed5cf312fe74d43fd1d7cff78d13d9896c1054e5b0488f, 0x5567f4f098e8881f2bc172870efaf599b4a6949d3e48d55a6b36049a12771080, 0x28d354e6a0ed26a933e33d6c192c1680419526d2ef173b639a568d2eba885f29, 0x22db4af7577ec7c7b742aa6ff010db9f6e8457367e3a02025bb398b3bf1e3bec, 0xd741bf4f83d63be6748ad48363629cc8a3ed2bd9220b08326ae05ae9cc7f6e4, 0x29f409e53414edc5c522a9c5b370a1ff9b642ee09575c07ade7b4843fb70c328, 0x4d9d71e42bbd9ca4d73eccf18d5a8899da16e3bb6fe7763f61deb581e99a4a9b, 0x600b928adf1e70602216f070ccda2d912998e493ae59f33bb3036ff218f58618, 0x20c650fb4ac74f5554dd2e0af58c9a96ce7189c81715fa7c5456f518859aaec9, 0x1b9266c30d94701d53022968ea23cd642e1e9e6c93da23585bd264dfb5c902e8, 0x57c822cc83af73b1129d69c8a2d927fba16914c52d8d6b517bc2547207edfdc6, 0x501549fb85bb75a16b45933d0b0a297cfe9a3c8ae4aa6b1414bd18101408ecd8, 0x20a06c51a7b2bd5901d6d93f015b3a5999783d147443fa34b3b0c980a8049ea1, 0x1ff85a9151269c43dfe113027d57280fb8338a1896806b091f1e59cf57088bd9, 0x7128cf3abd8fd76f5c8f23707b25052578f469655baee625a33969dc84c1d7b1, 0x2a559a15a09d13f7b4532c1cb52bb3d3312e981daf0c070e637d51a5a63b76bb, 0x3636a415d4d524db34fb29fbd71d652606d2fe77384b3cddd644f7ed876d797, 0x4c6427ddada1703e3b3bfc403726e80b732ab6a18ec711bfa818e861390b2c6d, 0x6edcfa92af97f132c57c1a2f83433c09b8124a58cd15096fc0a60cb1cde52f27, 0x496e0ce544b456b16c822436dce0241764982b00117548e27cb70990750a956a, 0x1731557c9edf6436d75c95bac7a1ebf1cccaf02014b01eea4294fe059b3ba7ec, 0x6ba448dab1a3bdeaf2ba54271538ef4c518466e48fcd8f64ed26e9c91ac49799, 0x6bb646d0baa96f2019982d4b98e747bda5f2b741189813a5e3885d63d7c9c30b, 0x73ed8159e740a1ff8ce2b9705f1ee06c5d07d505ebf2f4326989f12faefc537d, 0x4d587d1d324c25067a0351ac9ce1da650f9bdf781f3bce37354d37207b8fdd4a, 0x6f387aee33732b2aac17af3cf647b7c7598f9cfebc896631076812404b374e94, 0x3eda4095582be4484c70e5068c0817b1b49f4253a3b667d54a47f90f7e90293c, 0x39c0c3c785eebe2fcfc3dca3058a967a94f4a7075286576438ad9f25bf40db00, 0x17d40cf814dabd7cee9378b54252a1b85b84a5a6d39b6779fcfbc01fba82845a, 0x5cbdc28944e2cc62590bb42ab2aad26e78ad396fc9c78df84476db1612be4b15, 0x7308d911b702a55b05ae7af6482b84a7c6491e9388b7231ad9c27bfdf737d4dc, 0x2d931f5851445a8b2d0bc703d0dcc8f5bb36066cd2cc7abb0d3259e70a42d794, 0x66ff5c43c9f82c9f65d50b3fade83e7df77ce32e20c1561956332bff68e04c4c, 0x691a39822d12f6d1764db394167e918d389645586db4c8959a38248fd7467ab3, 0x236789880879fb6e4debc397058ef0ff08645cc4bb174425f8013146b37720f5, 0x23efbed7ee2e9aa7c5a26afe8f5ea0325c049b46e8113715996a96da99a24571, 0x20d9362b4e5702246799ff05fc165fa537c2a3dbd8bd9f25982527efe1cbe143, 0x673f5b815ba4f1a209ab9818d0a362779e44b0fe43ac69e1b7f4a1039e26245f, 0x5b79ce686d4079a2ab9f15884129f8bf3fad88dd15f97fc62ff95a0e4aca4268, 0x4201bd573fbd316d89e4b0693f3b74a3d769d02c7c9939b705621abbdf93fefc, 0x4816cd3a0e6003824d542825229b2bfb015e1bf4a53563015b28b576ec87b6b5, 0x25ee9ba6fbe80e2029f5c3fe0a4b1b16acc210c77b8df323d3e47a0bb64b0b38, 0x1e60d7537b4a7e3c973a239ffa4c59ee2408f551c397a7a27f7c67d539d38111, 0x3e4e73079275b191e5b8fd17b450cdccf5dc6474b16e2dab074edc9cca0d0c26, 0x3449b9bf8c4cc06d9c625be56866f8f410ddc7ee2e9027417f2f48c52db43136, 0x26060671b0d8693457e1d99d3b9c4a8f3c0eb9bc595f9d578f54b168a799a86f, 0x25ba42070115bb671c6240b090c6b6ba872e48a46780d10af5d9deda7cc1351a, 0x6cb2e0753d3a6dc2c579a2a79bba32b855e1e74e0fab959b6dac6152dc9f7582, 0x289734073c62aff281a06762e097ab4b56dff334819ff957a93b1540d4965d29, 0x212ca5db97ff40e9700917cd8d1422e78ccf29ea4380cc09889a305ef52cc14b, 0x2684a654a15397314f3703b6bc0737037fa169cafc2072175f6a373c34f705d, 0x44cdf30c677d2e5f2fe025f2df443bcdd9fc6e4ca8ec8d71e470cb9034b839e9, 0x372ae07caf562c7b595c7959e845d06b8b26a7889de11566df25d031b27b5b0e, 0x310d965f77c782909be2ae28ca11e5c7d936b4642404ca7cd7028ec2ad9ef03, 0x6abb02373a1824d2c2f1d7aeebc17a67b97fafc66b5748c938a7b7095745bff1, 0x36e5efa855d46173883c60f8bea24f9b132b7c378831e873bc4a2693d0594b8b, 0x47c90b93db1bf7840c30ef7c6843a37bde79bf19f998d72715182eff100c4c0c, 0x2ca7f71969c429448504cd8af99312b9ba50c31163105761e23e144c70f711a, 0x14541691dff0647b2649587d611895814d23e7435aa242441095e92dc00dc826, 0x2c96619b7bd60608666d5f469d8bef6a79d1eebe8da209e89d476606bcb12251, 0x1a06c36796de2bf6827da0dc8074ea89b38092220e609337cda0d4ffa59a3d21, 0x494897eb123843748621a35ae3d789df602233143a35adb65f5a81b80f9bb8e, 0x3af74910eb8767060d68b85d9e45155b79b705eb4fa8fe9afd875688af8f56c6, 0x29561633f3c6099c19637d23ee5cd66fc1c626b565a13f66a24484ca8a5250f8, 0x6d2d07f8eba6621a4d2738ae377968e674182aa768c589636adf0b4d89113630, 0x28bc06b28003373d615b74f1998f0281f08b0486a813e658f3866921c0ad554d, 0x44ca27d76139124da1d28785010ccbc233e5bf3795c73a0e8c322d3728dd68ba, 0x2d87f80f7985b1ba4ab1b9bfc2fcb07de9ba6eeacbaadab878e8ae3dfad9229c, 0x44adf0869208b91e1a7368cbea064d43f2ebc17e0c2665d421dec9974495980, 0x471fe2e24722eeb913a743cb522c7db20d6b581de2a1f5d9994864bf65f74176, 0x199f8f9948a773cd916b330abff5be35a687d8e055843ad9260c6f84a8efe901, 0x1f73b355dc9397fba199693202d9d35340134168afadd0a7329c18429123de74, 0x53c17564c661b5bceb81785e50d01a3d0b6242653fb44ae0f531e5c8645452e, 0x4ee869c43a08c9c67032415f0672da31b6dfcbae7898b316f657f28ba9f93cf7, 0x1e6c1399a014e31eb7c0188a11c8e3d02cf21bb0851c4f249850993700c1f539, 0x1037cfac2e6301c5b481b82aaa9ac16097f55f2734caa3edf40fe80884417e1e, 0x27c5033775fc6d8c282af00b39d1fc0258ec18897a145993766bf28c971cc0cc, 0x29e0243de5d9254711a729e65c5c28666ad4b2d866edd56124b946808b2c4e87, 0x69876eff182e51886aa55b3fef8f817e998b340f9552e3f826e687fa25063936, 0x68b7428ed8a54efcb41c161fa8a17cfe0f98eb68af73eafdde51ddbe0c1a7edb, 0xaa44d82a31a650a57dd57f2aea45e21f658aa96c238d3d257aa922e0993ecab, 0x1d0f15c77e52a6049a387f956b00ca78b18b2657243db4a476111d0f87289a8d, 0x67027db80be4743b746ef1634323de91b16f59e84b8c7b42a20a57637e862ce9, 0x5d8eea9e4485a0f030cdb23827fa41c21a0b6b4f8df77da93fb42c0648208d9d, 0x28c88416f2b16232a3eff75bbf7135f4d7784c5f4731d98111a39341026c8502, 0xf8ff20e07998aded0f5ade6b42b32db714a68e8705c7acf354ce538c0e13b2f, 0x83da44071516889c700baca4f9ab2e752e7c249396c1c792ef95a5223441c31, 0x13ce2aa5fe36ee0dcbe2c851f4ba59415206d43328671f8321d3b915d7c668a2, 0x183ef6bf906243d290ecfaccbeffc98933420678efb2d7671decd166d11eec45, 0x570135e03481f69a36b64bac605d18865358642698f1319cbf50aeff985d4858, 0x1efb576a82f3d4c2d91fb83e050fc5db677f3e32dce7f7a836bc8a92ac9efce1, 0x4cf57a446c6978e6f317101cc682cc32453d7ddfa0ac9aea3d03d095baa6c738, 0x453803e3e22f3d21c1bdf2c6ddda93c21bfcc3daf65dc15405e51bb90af4c1a2, 0x31f782508ae56c850473fb58b3062292edca9c6cebd8cb6d1772eaeed602ad32, 0x4d12f7d2a8c2ba9a47b0ae2dae05e9e94216f8bbad6c2f2afa3d1f42aa283a00, 0x67b556c5d7563323aa0e21a6f1bcd69906a269b75895a301130841763f9b53c9, 0x4ce55d43cae37e709c8033c396195d44140683c3cfd73b7a06150f44a361c0cd, 0x62f02ad8876abf4d00fe8e58ce2a154b491bd9cc91de41310ed8a16f743a9601, 0x204bcc7426d265e12b0de1d22c82f6bfff7d181dd91df428ab38be7ee8bd174b, 0x25c2bf4ea3e8b53c9aa25a2ee3fad616bca35c93158f19f67f41b5817d1051c6, 0x19c28c677d70f4d16e97ae05cd6d6c5012cbc6b39ef75b95510e0846acc1bccd, 0x71e8c555865eb21ab96ec38569dbe51a1ba936b0a873388e8175ea1335f21dd3, 0x9959f9c4df80f523d82b7983830380f844369757a1fb425beb4bdcf75aa652b, 0xb8cb656c4001e1506982b205d5b84c9ca98b042d8a8ffc97374318965634e68, 0x169fa43f608055a3d8ce35361a763cac88238711c009afe6478aa72d1af5e92, 0x6cd64833a51b3589cc0a5d34284faefcea107ac44a353115cd53b05985b88fe2, 0x73ade014f89ff62c19f4232db3f115203b4e32f0d27899ad4a11307783fee370, 0x6a0cb130ad2a78473e8104e503f7251bfd4a61a68e16550e3d66304c2ef59246, 0x1de2c5aeba5e7933fb27ad82969a7cfd74550353fa693ceb74b1533c6d661672, 0x1ecc4269c9505b342b252d2e1db0a9aedf5ba347ad2fda37a84dade1934ac044, 0x56b11ac194448155311747fef0593d886736ce8111936efc35c024bbea327a2d, 0x4018acd79070321aa42b776e22cb43e8cc3c0f377ab413157e26d3de4b05f4a8, 0x4f8302b934e377437879c20bca8c17d663fcbc1069bb7e8466012c8d778ee1da, 0x27591903fd0884c72078a0e2f48a34febd66bce518b54011aeb76e7e42267a7f, 0x4a656b38af4763451526b555e3c8ce8e33a3efde6f35c3fcbd183786101091ce, 0x7aa63100991639528c10a9331b98859c30ac61f75e66305e607ad0a529ca971, 0x343d47991a9236f80814501557750251a8634c9ea14ed01834bf2f7542efde05, 0x2034305d2774ba645a9b0a5dfbeba3fdfa46e5e71e85df16a39779bafe90d940, 0x5d0a98724957f6812b266c6dfb7b05d03b1234edc65b896d335938783370bf06, 0x1bbc1e267c016a325a21dbf699c2fcdf875460e7eb12f328056e88821ad30928, 0x4a57ebb6f3dfbf0b4065b7f053961bda6094ab54a762d0ac43fc5f0c01d98189, 0x5d96c1912a9c68fb4da473886253f2318823d1e256d570efcc3b57c979121439, 0x19e5effda67e617c672664de2a4147d5316fa57bda98dec3b6f554c040aff707, 0x43f25c33f7be03515ce2b272f598e23604ca9b42576a7656a6dadf666b39f2a7, 0x2b6f75f0554cdfc878c8f95e0ded6b4d780e7ea24b52472770f5173ec91580dc, 0x357baf289d8f2cf5634891dafcae60da86d987ef673c01022f24a3e8c5692039, 0x4cc44e2e57dfa512cea48f4ddc11acd0f82c838bf7addc5b9708baa904a4ef1a, 0x682ded70cbaad39a0b165b837686416c0660cf158e4b6dadc71ffae30fc238c3, 0x4d65bcabe586a0107b664f809fe8d38249bc638ec21a99ea2e2a18f22532412b, 0x1375130bac5809a07092080ef0023ecc78c72f19a1cbf7046593503c27930bce, 0x58d07018ff9f4f6929a6e85b9db1989b8dc9d2bf63e6d0e9591f9aa90fb13f9, 0x6a704d24f452bea73816dc56ad55976da6eb9606c76a6395e3cd5b7a0604af45, 0x40623550da489c95951cf9e26b5369458e20a8ef733ae8bf600168145a7fd3ba, 0x113e43f17cfb8ce6ae3ddd674c32775da8ffdb7cbbc7516ad46b1b989e90c388, 0x4bad7b37fa86d070080e2f1423b008d131138a5abfb321e36019c2c237a3cb45, 0x693fb8a7d1474595cfc4b0425fb47f643e0ffb7555cf84f40f23cccedc3b1f95, 0x46e07ab3fcf675d48c73bf27988004c04ee63c0de124e2bee7688ddf8f908d90, 0x2014af5a790900bd62bee2bc0d7b81dc1d8a54c545227d242051efe874a8d902, 0x3ccc4a453de23341fa3a35ece3090aa331e5da95bcec67fa91f16b7f4508bb7, 0x24495f53dc1c93b5f51ea3294be697021d9caaf10890ef459cd465288fa1b41c, 0xfc268926769b60d9d7558c18fd8694f05a8b6b1f4ffd19127801c65183d8a04, 0x5a56245e521ddb84c5c4477cb8f54f071d9a1ef737bfef7f1ace3b3127a37db1, 0x279d2702d1c14f4458ad172132faa081440d3f527bf776d7db3b5cac961c553d, 0xa4588bcaae1fdc837ca87f7715b289213aa4f52d985e0c343d72188b5957e52, 0x2e3ea4166e4f8313df32bd8ef9f1844cb57edc5e6ee9a12be2ee194835a6899d, 0x1e3bc13cf37243e980ecb60a85572d2ffc7e4bdf9156ff65d8325ad4a03ebcde, 0x4fa7b34ddc841c8a9df22becfcfb441716d612f1f56760aa106817f1bbc2bda7, 0x63d195c6c89b55e1758c3b48256f3d0bd38fc2ffe928f447586b6b1025ed3bd8, 0x9a71af8680dc33d69c1364c926c1f6ab792484fa65e98146967cefbc02616e6, 0x3ce299e1aab513591268885cb4d462408075e060c6666ceede404e2fad0f4acf, 0x6cdae25c7a735daf54ed0ec2c56538112f2ea6c74f7b28550124b35c8030020a, 0x2a22058f4d0ad9ec61fa9d7b6dadce387d2b9bef149e4947a00a986ea1830b59, 0x2473a9cae3e33dde2db643c2fef0135e53f048050712d671fbdf892fd194401a, 0x2b19e62c14fadcad5dcff360e7ebf1f4738390fa3d32457b4e9b8eda03d35829, 0x61d5d41d6d8cc5e7fed1508af8671387e346a7350f69c6aa51fc7dce17977092, 0x53efbf7c1fd38da826821a402845dcf358be0292081ce8b87546ccd938c86052, 0x1ebddc62d822c6ecc0e3327a47c786504deb4eaa337716988a0c5e5efb01ee9d, 0x1ada20406a62bc4dc677cc9f129eb3c22f7bf92aab19c10feb1aa973e47ee6eb, 0x27e5a2d0a5d3ccec079f0416847679e74b10e7b882a12d505200e6a6fee923de, 0x26141a67670acf932d0507f41b6eacf0872b5a225a67504db01321b0b0cb2c9a, 0x591feec065ec30f6a0f1ed0c2833b8f5d89afa780ffacf957c0d4cb696e34e7b, 0x150d0d0b24ba1fc148c95757bbedcd16049370fa96ffb7d61a4dce53ac57b570, 0x53178b6ff7e40f33d4182c9355aad78835e36402dbb452ab0d30a528d949e456, 0x3c66118afda511afbfa4f4f5cccea0ca266c40bb952e3b92d10bd269ca3c7fd7, 0x38c5aa2433a30b36ea73cb1d91fc92efd501a4bc5dac724e1f87bc7061dad3b6, 0x4be80f257ed816d6c67ba76403c591e9d77a2af3d9c59720092b9bed03218bae, 0x70fed0349853f91d3e1a47ed2cce40b676a338661c7166b9bec4ae0b16f364b7, 0x405b3cf690a2795150cd7866998d49dcfdb61b2f4d14f60870af29557f7258c7, 0x538f7b60c76f469c32e8569cd553e1617f3312bfea54c30c3745766b74ea1a81, 0x49e65bd6a59bdb15fd52e746ac1f43398fd65ee59b343c3f2f543aefd4c82e22, 0x4ad75e4ceb9ac40095631617d52b676781ca47f14828e3bebc9bc58d5277dcd2, 0x394d2f7e634320dc4ceb78c36700b14114273965553763f37977b1a435a88f61, 0x3bd8b42fa6650805449d8808d650e5d1216c27d0cb881914fe035b6ec9d18726, 0x82db11d70404ba7cc3b56445035263998c27a5acb22dbff26b455fd32e06381, 0x46174212a3df470636cceb46e72c7cf53271654424db3ff51e151cfbe737f374, 0x32caa8d44d8aaf43ba718cf604c9cf94757b0c27a8c6e2e89dda2efcb0e67a4a, 0x38ffb44e744a70b202273df28cd9e3f8ab88129729cdbf441cc04b176a1aca11, 0x3c5316a7c75756c158b0b07e3e74777d8fe602257c6bdd6d73b054f06844fc67, 0x721370e3e467789ea6c9dc909857f58b76e4ce83bc938ea95ea7c6eaa1206c8f, 0x2258523289f85800187b48c7c41073a9f4e7b5e0e254aaebee474a073e329b0a, 0x640855267e4e356e9cfd19c9a7bb2a40b97460098d1172fac506b5015abf1b3b, 0x12b74104f565188fe13bda8665f3dee25d2137d8d9e71c248dae25754bba9082, 0x68da3d7761cd54d19e5c84669fe300c794d5d43b5988ca4ff50d551876d4205d, 0x6ca07b4ed391bec76c0d69a89572cedeca0efc35f3ebbd2c1f0836b93dbd82a6, 0x69cc5c87323340987163c3b161f912458378f688ed4d95abc1ecfe471efc32ee, 0x61d25f7eb60cbf35a9a0cad20dd20336e1555f9f96d9a409697e1698838676c9, 0x3a5c4e5ec8e6c69530a585071281c9fd9727b4e41d6c35376d7fb7f811f3f08b, 0x10f84333edb6770b67884253adae2bd2030cbe5aa13f019fc0134d8696b4d5e9, 0x378bb77ecd2c61fead5a7a5b4209092b6b6fbd83795ace9d2e5f1a916b544db4, 0x7e41ac30b861b8ca860214f6e521849c14bcdc03d839e59d0f04ef1577f23cd, 0xf15918805237c08862dbdb3379b44874921458b5193e52ac1064bddf6320405, 0x5c1b0438daef5be322d038731784fdc62be45e8b48790b62bbcd63a6e3d373c9, 0x23e512c2033e8db4a89030e7a453cfa1a057438e72625160498cbd0cd3865685, 0x1ae39ff27ddd4f30a1ccedd20e05591159127123256747384e5382ce32c8885d, 0x8869f7e51c9682b5030e6fb44e79157e025299efa0649c9849dd2bdfa061703, 0x6762cee74ba1371ce4239b53186d9d2301ce7f3e0ce71230b3bb9006da39e31b, 0x3a97ae54573963cf64801cf27a1c9500a8b13b6abcaf580b647f02531769f9a9, 0x48ea0aaea507b8f9b689d8d0f05a52d432cafc838b6c3a8a880911ebc81f862e, 0xc48e7a6949bf04f8cbd5422ff8ae75b7b4423edfedd726c74e6a72d939ce1bc, 0x6234a43129461ab37ae40361314c6fd6df3134f90434cabf6ff54aeef50434b9, 0x17bb917517fd741d08a718b99b4bb91cf3d3908c06fc0df80418fdd5768d30b1, 0x461128f107601a11360cb58629d214c78f15cfb46ac1e174e06b50388f33d5da, 0x1665ceccbc918c9b5d52e9dd83cf9d333b74e33c081f6c33d9d53b8236cbb6ba, 0x1da1929ef73d14c3ea216e85f40581d26ce4aac76b1d1fb38dc5c9bc961327f1, 0x1c1d834773cc7530684392a8182ae1fad5420fcb492795375e2cb7b75b0b395c, 0x3c4114e705607e3fa7412794c417a1dcb4f80ccbfb9f07c71b1b0ee7520ae15a, 0x144eb0c7ac37261968fdce310c7a726df9e7b6e6940e9e09518059a203de9532, 0x130b9dc92a426d5ce8f8599033d1a991bac32ab8e685632a8a68d9cc38bea8f0, 0x5079f7965413e8b495e1897fb1cf7a1f56baaf25d9f2c034bbd85d087e76fd78, 0x3af9f53c6f418155940b5b54dffe340b3889f267b689ce1a2867f90cc446b44e, 0x28d022e014e899eb648d944f53a9c0240f25f884d974e3093effd2e553fb3843, 0x6847a6821bf96cd14ed8167af9816cbade5a1bbd9eacc212c8e0715152e7304d, 0x6af89d20226c6da6de56b4a0e864958040bc31da66ee36c54e542265fbee6824, 0x55823d99d926d0e8c5b9d0ce7644441d11b6b5f37ff2d5eec6f796e3ac7c35ff, 0x30d6dc5cf06552a4da10f1949ee1eee9c86c17fe7ae7b9d53f43c7ecbde8319, 0x1ea94e9a11504e1ca46a1978eca0c87c99620b2b17b95aad395fcea5ca0cf983, 0x3324e8260fe58228bc8ce0702d76394bf3bc0b3108c2398965228a70662fa460, 0x50eb9ddafa7b2775d8a44b2251b697e09d4d6a6fa7a645bc7600b073d4cf39d7, 0x5bf8576524e4196ecdd929be5357bed679a1fb1b7947e34817a35e71fcaa5122, 0x6508adb7b771766bb40607352887cd07e95ecffd5f889f8310f1c0299ae72d6b, 0x2bf26925615fddc0a653433f8e987c2b10bc07715dbfda61f21f73e17588e63e, 0x38c38dd770d5cf6216cfdefc62678950b614a1066c74e85bde2a78d369624a13, 0xcab6c7d4f4c7787b8feaa1783cb6cc040c4db4d6ec94c14b836fde7770b51d4, 0x54b0bf0f3523e4d1d99a24850ad7edddca405c4266f3dfddbf2a66b6fcaf04b5, 0x3e5d8dcc999c5c2fe9c2a4d4450d9030279d07864a2671057828cf81bcdf664b, 0x7579698f812a4891a5d783dcaaa41f57e131e8b165096c0ac94bea797f3b7b9, 0x641bf566c98b98b8ccb8fd4d0bda45d1758a59476aead34c60f403e143c2f5dd, 0x58dac7c0db93a27d1910e564e9ee42ba38f893c1ca7c56c1287e6a3a06ba2923, 0x6193d26a70d789687b4dfd3772844745e6763e903e411fdecb7514f6734d3d4c, 0x5a9fea0632d418833510cd167725a11b33ddf46666b70ad2777f41ccd9db4062, 0x235ad722fb26bf7b63e1620a9bb751780dcf54ba08a7cbf74ab42c30920a9d96, 0x5f4de049b4b5a061ff629d2395bac3b925c59721413cca536921527711a2f0e9, 0x3efdbe7d7c7c9bb0bfac4d445f3c9b172c88b12735bc46e14bcb9c78570d7d34, 0x565c4fbef6513b17e0ee8517da253f8d748e892b4195a4f0829fc28b371f8e6f, 0x12cee3684040340b313fd695e36699491b93f4ff2f4636f3f795bfaa54a91971, 0x5de6c31d3131df5510fe664fc3625df9a14464a995de6fcb28673515a7384d5f, 0x340ea6925ab2bf18104ffbc725532f32304ddcca376f35fde0edfde077a8cd35, 0x11b0b6a1bf285acfafbbe9b347820cfd70c72ebd22777b88aed44a91481f6758, 0x16d205933218823848968e7d362bae5ddc1dc25027012c24a4b06dfbfc6c8bbc, 0x20c05f78e76ef5300a0317d94a9fe48ae54d8229229c4a0563b669947edda460, 0x1deb8f88a0f952305744ea1c078376d278cbd06b740a3f31990a50a3a51c2d74, 0xc64e8fb01c38732c5d604c397ce45b0ebdcbe9e3d7073297708e90b619c3db4, 0x10cfaa7d65cdb7e2af593c647de42c71a76364e1d6a6a07eaa5d204f1e1392e4, 0x16c0634b830ab075be1aec6ee4b5451713d803a3300603b5798adbb7b945b763, 0x5e265cac687f7262662f45b0ed419b05d4d639f2a57c7ec00d355e0f07bd6ecd, 0x345a33a5dd159ee7eb0f1611169690ee4705a4762fcd6eccd22f197d97bd1bb4, 0x34b793755eb9eec3d1e8ea77b33d347997e8309b8d79f4f14849e0928f883aa3, 0x3e217bb522e56fc3ee2fc2d50a860f7520aa2a297174fafc8f07ca34d4ca47bc, 0x5ed6316d26a077405c7ffa557eb32dc8da46c8976d909b2abdb9030d9dc51c67, 0x28a5b64b537542766654fb1464ea4ab9ba374e66c57c58dbddf4dd8939b22109, 0x421d258f21af6b65c0e1bcdc3d067ded1d5dc2785cb34dc053dd600de882d262, 0x2ec66b0f7beb3254c1ef3621f3ded7a2946530935c69ca6309e69898542ef938, 0x6b59f3d9d90c1baea5df76ed1ad13cd9b3119db4204da93ebdef1f17987830f5, 0x19eaaf4a2862dad022fd85aad5d25ce5ccd006ce4894b38756003f1a450ab420, 0x24b23c8fa1de0eee651e0aa65d4168b1133046d753fb89511b66e66a2bd166b1, 0x1339fe8cf501e42befacb3f2a1424aaf8f0f730a9fd3074d629df0ade0f742d0, 0x1ba4efae49687e422c62b1531a5fb9a6361dd0829d59986ca844135685bce307, 0xdd8acf68c29d780f29e87c5cc6e088ca251c56d09f8ed20ee64ffd425a54a5b, 0x3c9f5f30b364d8d65b9eba34989fe0fdbe366933e74bda0aca6e14e4a354250a, 0x588244853fed5b4f2c22c36dce88703da54c1877a94d9fd2bf42e46ff5bad3dc, 0x3d254b349588142e453a86ccff9b5fb22fed68b9bd2edb703b19303a10e18e5e, 0x22ed396b8e1a3e150100211d3b20681aa271c8939bf733cdb2cefb830bd33f8a, 0x43b154a84d1c60ea16fe031811b28b4d2bb64207fdbcd11d6bef9bf240f69e93, 0x5fe2fda5b1cd7710931a858c5d107c6645083b6dd8d1f13fe3fcd0d4906c16f, 0x232475ef75cf11b38eab114b31e42ca80ad3b574c66a4de825be8096f92bddec, 0x3bdfe98cee8b78bc3f0dd7fa38fbfe09d2cdd136a9b4b5f122f20ce7aceeabe8, 0x6f52e83efa6f2dac2e435ff1a84beb73fca718d3fe502915d021d2f69160fc6a, 0x1037a01b35d50ce2124249e0890c6b3df088cb4511baea628b2a23e919f14ab1, 0x3ffba3320927cca5811cc098ce89da8f06d98fe6490f3a0a804c4ac9c422db41, 0x603a25f472a3cb075abdf5873a830c5ccd92af46a22e73ea9b334e6eae3fc3b3, 0x2d1746d3b686f4b5e5825f99833b7e69e28ca66346f66a99caecf5674ce28c96, 0xc2fb3b6738b2ee6a5466ded6d946755ea360d7edbf96b1f19bb2d2dece420fc, 0x35b062c48f71e646b9bdf6fb37564248102bda10fd2945789c4f1f11f77fdbb3, 0x5ce9fec538986f954176bcb6fc0e5382a3d2607dd574d9ce999d73a2edded1ca, 0x339af731b8eb4d99761b510a802d78f32b4c500ba9b50bc95db5ab4bc5a7cbba, 0x116c45e1fbe8765109b30d51d2818744a556ae3df16e1e4110e43582bea5171e, 0x3ced858df65b1a4d503e03f5c2680dcb3ec8bc4c80d836759ed78c12b0c4c1f3, 0x1b59f19ebc006b2424898c6ec45df2ec331187a636bfc52aa4bbe82a88c577cc, 0x736b192c20b79680a5b643d0f94df2b4debe895f0875a43b9c979f0dea175db6, 0x2f56c38a3f9fed29669b4468f680d12338bda79a380d927ce1855f3deda27a54, 0x24a876af71bb1d62af1cd7b62d780f8f9682ee2b1f783d149b96cc331c38e121, 0x73c1ad1564e187903cbd438d325cfdb8be6a53ffdf00dc29be7fe88a5c37c62d, 0x152d7fa6d2512c1d5695917cc9eacebf8df82569a1fcf0070fb992c7a8c714fb, 0x5bc4a29ac078a1de4d2ef13f9c68a82c1494ac6cbdc8443b353eb9c08cb69c57, 0x5d9072827c1c9d686dd965ed4e8df8e39c6f017530ca94baa7465bf76943e76b, 0x2acb1c12d05ac1b2efcb630257f874cbcdb6ec4020d11169be37aecbead0a3b8, 0x4767048ebeed0e2ed2960989649f21308f4e75448fa629f46ba726d5c49d0e3e, 0xa8cb334c35fe591dfe20c57732f4a0cfde25358b1f51b5e714b2789ddcabbd1, 0x35e3ccfccc3ebabfe23b397d989c558fc658526cb9de0d18d2c4c6df17bcc289, 0x2b54dc25e5fb12ef21156cb97beb8abc44e3223b7c3ac80d3346941e12c28459, 0x28763deb2712d596a6799133f82911bab94578352fb0208dc85366ffe0ebc89a, 0x2878b6b810753d544b468de04cb4c795b79cfaf0f6e77fd32a02d22beed88d69, 0x2f3379a79e0ed6c1d8d2c6f79944b16de1831388a288e02a2d2a53d98f391dd8, 0x3a0764876e288bb0674abda13a4f9574a48ccb9ef13525909cec1c14d96d43da, 0x52a2e58943f035ae2ead46e06e1818534f4dcfc83a77ae63b3dba9488b7619e0, 0x51fcad6d453f8b62891b402ddc0200a57ad9d205ad12928c9b24a96016c1324c, 0x1d714a9549dd1e7ce199026aace7456e1c1bf4593fe33b3761d6b0416e0bacd, 0x2b78a8f9684542aa10377c855d4ee35df0ebe16c3f1c0fd2858f49ca23b2a80b, 0x10b8251fb5cb422f87943b910df7c25078bb06eef6d81347c560e5150e6e5dc, 0x375f772b453204d992625e9fabc63c110152f013cde6da32fd46887fc9e0a5c0, 0x18aa38f61e0cfc152bbcf2fd07b8fb4dc428426d75e36cd136df7b5fc40c27c1, 0x1ff6d655e5f4ca3381e6213eeccef3be59040cd00497382bf74d5da4a242a430, 0x6962cc543009e84836fce4fd5541d2dee8ee9992372e401b9de5c57f79d3a53e, 0x5f3e7f8c1e68b6c9362d71f67bb164a998cd10f809a68314e82de84ce22aa7e3, 0x2c85584a50fdbd00eaa0cb06fd03ecb4a6e51f17c13cccfa4dfa2044b0b7e869, 0x55f19e63a1dd86225d47ae4621cf14a2ff195ebd0eb2afc78418d259ea605d08, 0x461c160cde7da16c453093051ec20124b5a746961bf0d4aef38833c626f1f47c, 0x42b327cb4b5104ca7ea8f19e4360ed7e95940dbe902360c073a21f0b80a2346d, 0x3e785e6ac14c49f2853615d5fd3a86bbf901d3d7a46828c3f877cc449b42d5b1, 0x3061424bbed38503c0b3508d188d4c89e0f55eab39f7782b9d0a030cc9711175, 0x3cbb4c5d8dafdc8b1fc997c6360af37eea7a3a4a7e456ac45f3ff237923719f2, 0x50f0a6339c701210212637f7c055fad7291392a6cc6773ce1b7299e5322e6cce, 0x2be4280b08c7d967825da3e38e913442e424011322617baef9824476242f9e8a, 0x70b0055e2ade79041d94cd0b04bac5b76dd47dd1cbd14cbb8f6e980117571a52, 0x1f3698c8d3fbd7d5639e213d6036c788a740051c177c29fa45863c8db0aa53fd, 0x5dfe34d4626911883b370ca834806a82445976433b00d26367b776cf0592b45a, 0x1a29bb6cf58b3df3a22934c26c2e7330e496a2c51470aa9511d128ada2abf68b, 0xdf0619ecf6d6a8b7c9b67f63b32308737a357bdcf7901f47f5309dee8dbc59e, 0x2467bbc5217871980d228c76ba6c5a5dab3d20a8eb7a8830ad513a7ca3acc55b, 0x2659f416ce6bdafde0a83daa29204a6e089d1545ac0b4da468b983168c786ba2, 0x4b0ff203dcf3f587f8bb68ce835dc02f1995f571bf17cd963792e0f9bdcd13cb, 0x5a82b81cc1146b6219ea1796d9f65b73fcf331766366320a7305c2aa86c7db3e, 0xa371fd544f77d83b72ddcba596fae29c92ead937e07dc78f6abb0bba0725f17, 0x4cd521d4ce27bfb270704f458d1290e813295cd6474a1744988897511d55d218, 0x1422537cc5be350b8e96d7544be160b6d220a661171fe62b80bc38e376435a1e, 0x1c7a320167a864bc0e9e41c886f4be0b04150fb5a7cb4978bafad1c5ca93f6ee, 0x412d9627090f4ecb61a66fd8b469fc46d0e955d59d6ddd9cffd094fc030d4117, 0x9d24d8792a3e71cc16990bc070cee931a3c67af42db7137b14b1ad1bdf6dbe9, 0x19a0da3d77f898f17a9147539eb1ffef0fd8f0a3fbcf9232f93b9f72d998dab0, 0x57b89148540c5000b12b0c2b8f4539f5562f5776111bb972986a538bf378be91, 0x175e6cfdfcf7ff88b2707023b1fe964e6bccea9245979135752b99bedec4b56d, 0x2d66467bf1047a6243bc5bcd7609bfe8bac61874898f0d2a34e9abed8940c035, 0x583234acad941767cf630ae452e451dadc770c2d69664c7fef8847762a4504ce, 0x2af0ed6df2a36ec3e6d7af95b5bc0602dbebd9a02f0df544dd4bb386101df99e, 0x583fa23f6776d3092cce261517db3f7a6c87d6e1b527dc2401bc4fa8653a3df, 0x365725f86a25005a5f5a9783e9b4c2787d8b7b97f7fa4f8666d971952017486c, 0xd7e77d2af3699781b24a6431a11cd14204a931d4fae26e9b6f2a2ce1af0d4de, 0x59435927455cd5c5e86b931b34c86d87e2f992a786309a48aee541362865e370, 0x66922243e64ef7a27e68325c4fb800e2fb919088c96efa7b693738ca3e9ffc4a, 0x5dcce4b998a91b7e3769727e119fdac2e9fc02ffef45f1e9785aedbcf7bb279, 0x5b2e1650816a042006e10c26905f2aec17a8ed0939437388af9eda891366d32e, 0x2139064b2d4b659a4a0f0a4ec001a81a521f81ec9f0abdc50918db56df72b72b, 0x1025cbcc4ee52d292a50bf126cec0d8090b05148adb054f0594ec59e48df5417, 0x58ebf58242a8e1779542b97b163825ca0d9a214d2638eed12984af331c6c6dcf, 0xa954fd3c3558da4ee12996511e3a3340a46e3084b6a3c19ecda8c0640f0ec3c, 0x29ec3ffd116cb1b860da597bf00cdb30054cf73b76a16f9b655f9e76440ca093, 0x1fc4c73a458394e1483654bcf26e82e040280013c4d4db609a8f8fafad7eedfa, 0x2093e6c260fbc44b23247b58ed9eac4844851757d8d4c27aef3b7eb90e7f37d2, 0x6e18aaec6a708b2f9a28303bcce2edb885b6b976213abfeb5301e6c762b6c3f3, 0x327d7017e55da44d8cabf13ee0f7d1bad34d1043760a681288064470594b2ec3, 0x5fce90ae561eaf66e6a4737655c1b6ef3998cc982200dd1d6122201d2d218cb2, 0xa58cf470965a94f2755cd2507225f73b122f90e1dd37a81d3b34f4f872b92b4, 0x6e62fc2793888eb47b1601cbcf689b4d4dfb52f36375d5cf3702df25c51c6789, 0x6d37a110b12966735660be75b5e50c72eb837a624924eb5acc805756789f12aa, 0x31a5b7dd72146f101f7d475847d2c6bf818b058d7e2ba456d5d63e3cefb736e5, 0x411cc243fa46daef2cad70f2a0d022802b6dfdccdb65fb46346a57c2c46904bb, 0x68e10a36870ec686bc2740db940966e26253136c6f244c74fa9676ba03a347fe, 0x2e15d9bb2ec73dcd79e766e797cf83a70b990d62636229b583441291be376efb, 0x64f3e7107917d56ea5646c6c9055bd3592a6a8826550a24ccb3397d7df01a123, 0x5ede38414413db1bdfcb47aa20bc70369d508e72bd39707d27585dd32d4b78e8, 0x2fc75a11b6eb5127c6f7ed2fe6f7e7e429f26bf577335e3a219a432028ed2a0f, 0x2855614a1bb55785573c6a59b089161672ba53b92a86c1a000504e1add4154b4, 0xcb5fbb39bd3ec2fd0e527034db4b0be3a8e5aaa29febd177534ca1384b4f4e7, 0x54b50de341e1f4bdd7e11d2001016a067310d6d7b2af8cb928c86ea4231f2c57, 0x2be7744ad31f365ac573c77cc8f509852115b517c97c8a4d9dd8e68fe5931991, 0x43abd69c01b7c1557b83c3c861c11f10d72f4de96ab8082cb52f05afd4fe5e55, 0x1556679aa5e0e4cd79be2c60d7cb013bbe2464a07be01d98f12ca2e8c27a0afa, 0x4b8dc6a82a61edd706070b0c8ed1e7b6111813b6bdd692f8fed4ef602358b1c6, 0x24be900506d3697f9c333545ec1c0f118ef30ba1e5d4cd12cea8a9b0fa1777f3, 0x57969e235a72591a953767fa3108d8345d594617731bc53b8056434445d312e2, 0x185c333f4ab2fdf5df5468763997214d14dd7e67834001a555d7358f522823d2, 0x38db058c34943a6efb14cbb462da2e5ec8462a858cef9cd5f58320636e0ac657, 0x506b0f71c725d50a8eff8011fcdb3bb0a1417cea797926c95b9d513db0f2f375, 0x55ac46c8eec4d1e62023e03553c9621a72a7ef4931ba1bcdd2a3644dec77bf24, 0x455ffd9ff90801b6873cfe2f446585370c3b51db8cb7ece9999397f5dfd34ea8, 0x5410bb9057abe8e03926ff9757af5e6e951a1f15bf1f00ab4145acd8f4c44648, 0x517420bae91839fc5ecd8320a8a96a01ceb2d13fe4e5158919a1641e80282e0a, 0x626a3a978941625cd9ac4d7472d12d4faaa05046f530ce90d3eea552895e2d0, 0x4b6cc4cc8ff0d8fe5caf825efeb40951d82a8b93c3eb683b915f3e64ac80ba9e, 0x34dda4463a2990dfaea6edc59b6a9e6f422c74592f4da7661f2311c1f701e2, 0x1b946cccd0b5671c59adb98dfbdd52175ac087462e36914b2bd34089185bfb0a, 0x10092ec3045ad445a8cfcfb07c27f073d6e0da9200a3436c1e6fd3ddf4cf398, 0x231eddf6536956a7ce535549ef84d9c67eacd2ba9965addc67e619701b538c84, 0x6d1d665f1e1c0f08893536ec2127a89dc8c6c078b8c752c7459a1c2037b13ff8, 0x42605e1e23fa4922043b0f4d89b2b28814be0d991198ae501cddf8087aa1c21e, 0x2f1447c20d0614aecdb78f6087f65f018c650286d6994cacac3c4742d90f6ad8, 0x623524a969da596d41776721a6b64708719fe8ac9bdc2c8c610c2e4f4c091e64, 0x1c5b0ddcee803467276510472c05ade7e32c873a51d196f5d7583d30260243c9, 0x97bb3d10a0a77dda2de6d1eec5945b2c3abbe7712a751f3fc98faed83c7a9e6, 0x1fed476c04bb1adff4442fa09da4e62c84b216ffc825509661a4a43f5f3bb74a, 0x4618578c4fe5c373075a95621adab0ef20012f1df029d2b6c29bc6b4b07d1627, 0x377e2f92cf1481e44c6829e4c388f55a62acc8cccab0102078cf2492e5444a60, 0x10cf56b0f07dae9786b9ad0f06b46721ad167dbec4da37a440ce91252042c078, 0x1e22d532defda2ad3d21fd7cb2ce43419c2c299fe29f4042edf3d3002a733eb5, 0x6f74abdae7641fd240392c861dbeec3ed6386ac1246a18c1afdffdc3f855c59e, 0x11ac6f79e9ba6d13e99ecbb7520330bf5c3f31d2230672e511c0661ef4f7c681, 0x565aa0c56ca3bec2f097932251e71b7c6fdca847caef581d31d046f7f3fdf486, 0x61a5ae6dd8c331864916987cf376e0f6041dad4156c2fefe8ecc524ff3041545, 0x6937ef368447616852312dc42e6cf7c5a1f5cc0d88c0eb78d934a5bbbac87e66, 0x6c0c8f85f37ede2d9e16df6d5308ada882af69350d5741403acbf0cadbf42f58, 0x37661ca7d641d75f753bedc198ceb321fd4e48445fe94e821edf9a0890cc677b, 0x2a7b5e83b65af2723cee99813b31ab8eb43db339d35e369b960cfd610e3631dd, 0x155695fa90c1b059a2535c1b8c1de84cecf5564feb52cd1709762c25fc44f039, 0x1ce75d320e7e9b3da219a37297cf6fbf9725eab357ab6f06db38d0bf08b7f78e, 0x5e228682cd4da837bd3a79527e179af3156f7a720a83943d3b09e0671d458625, 0x6f8c962b82e59b68fe029f4b5db71e42240ff6b653395232c90212ff73d2dc39, 0x250777fd5ce9d45210f4c1f1da1b696f8aa7830dd85f88bb375ac0b1a9d791fc, 0x72d9229b5b0f1f711ace5310ec59907fb77ca3d96688196c4a49423553f43bd5, 0x3ee628f60d9df7659529acd72ca7865a7908a464d7ecea8583f2ce6caf0b3cc5, 0x1c7a0c215df54d422eee4d94dea5329ded279281badabc41e420a00ba37f1373, 0x4d0a140927b0429f03c5c7f63ec8cebe2c84de64d9e9e543ce8e85a1ce3644e0, 0x500cdc078abab6fa87f80ec56493c93a4b560119f035873afced9ff10a106c3c, 0x3c813c8ab6ae96b734e5b7ed3e0977e69f423e0c78dc1a62ab1056ba48d42804, 0x2eec34f725fe7c624808398e12c884cbfc9e4f07f2f14f7d3c691b178feed275, 0x57bcddca3a10657e8cc5c39db21b002bd6b8b36a637b1495d7b6ef4ec40d58ec, 0x512b2c95622de6dd8f5e5ef7b68eea4159b9a77a4fa2c29433967aabd4f16362, 0x13042fc6ca4caddb4976e98630a47b0e8f14681bdeca771baa9915c9d8a536c3, 0x51632e306a1ccd7333696267060121e6a266f5a58b3cd4420c01897596105a58, 0x6147277458162efcae38a5e00bb437c562c827b9b6bf1445d0b85bb657635e7a, 0x61d342dccba76b783f3aa9bb330b883221451f33941196a1eff5a652535679c2, 0x15607a55bb3fd45b54e9c455407e894d57cb5c5ab6531aa2b2fb5461d9b8b38d, 0x5a928a9ca19e02c47694d56c86f42cd36f649c335516c2b5cfd572d2d7447f98, 0x70288be04a0e49d23213250b2f8640ea7f7347363e70dc8f591e83218a4c16ed, 0x1bbc9b43ad9720c64507c4e1571f45df93ddcdf0eed5d97b525048a1af002548, 0x2a6ba42235c3a7627d862986091e00f314b1bf59734ba4a280c1bf00cc020bc9, 0x4f2c1e4cd5f3b0449675d95ba8952c90ab9fcceb85a2d2f79f7fa7ca2d22f27, 0xd3556328b8060cc0b9efcbb5074a8f687b60191c489b0d81f0ca52c508916d5, 0x26ad1da7de9a9a3c96b3c885ccb39955d5dcfbcee770470ea17435e870c6f0ff, 0x1becf6d8bb781a99cc241018828d1fc68671a84b9cab37419b8b643d99c49aa0, 0x4456d27a0f3118138c6b0c659d74d730f2f988d6c0fe81eb316cf1e6792c6fd8, 0x289b892bfc187da6479cd180b40d004b23edc75e25c5554480cddb5af5674bdf, 0x40de9b4ef305fe886810afc80a326586ca1aaed5f9c184202b497f6c233dab00, 0x225127d1277391fd8330ce1d7f0fa3571106cddaa3ae5b6fd611d3600982d91, 0x44779ed5788b9399153f6cb77a1206664579e4cd6e2b31cbf2931d4423a31a38, 0x5175b132a16d62ae95aa2765aca0964ac06e9d00a018ab138485e36699e1ca02, 0x17b8c2fb10e37b67623dce9e12d126ab3ca71be79a985092082481270e2e8676, 0x4806e3487dfd17c33f4d9ab284a20f09b6819fd80f24bcbaa889cd1cbbff9e78, 0x52ebcf5f04c8270f13f4e7de9172868503820bb3ba151346bcf2f25a3ae85be3, 0x5373dfba880a09007911463dde342dcf1607fcd7ce8d1d5bd44fbfe6cf8c879a, 0x9e2f3cdf27eb5e89e6fb4c85c819aff975cbd9e68bd883d4e5a64895289ebc9, 0x253d7c8ee44313bfa9dbcc7d679671a01158c307e8b397d33ac8bcb66d27c2ab, 0x15acffbc012b0007e3160e6f1d81cf8bbfcaa03da1fe99b5e573e5d2cf620993, 0x3ac3e0f4b6c7fe98c8febc2777638b644edea08295e2084e682158a21f164af1, 0x2e656047953c9caf9db69c1b4c6419f66200a6f8782b9cfee0530b8cd8c106c9, 0x534ca6bbdb90689b9fedffa80750b04f7149134030fc19c118ec742b71a899bc, 0x4af2140292f6483a6fdafb39ebb12918110a6af0c2a12eb0a76a8b263feb42d1, 0x481cef5b09b7e4331653bafd26bb396742604a90120112815bfec3a31ebf09ea, 0x38bd1213c8da861312cf83ccc24cda92f49870af2a08a0cd30fd56e995a5a68e, 0x48bdeec8da047db5e0862ef754d454f4e00dfe4b1b545dd151e705dfbe63b1ce, 0x21ea44491fdc602300b20048fd9cd8e3874cbd9ad3d87ee0e88650d76fdd5cc1, 0x2ef7fc1ad5c93a09666584f026b4a681b8c94ce6ea159fb23fdcdaf6ca96ac26, 0x709aac1f6fbf0ce9f310cbf83e116f07aa75dbe170374e583acd239905cc5f4e, 0x52b7dba432207fd3218d669110956ec5851fac1a08a08cfa9dc6196f602b60fe, 0x1e66829a3b35aeff226c4aff8672502b7af5b3c9c6d93f40ca3a56d8e742d37b, 0x62c8a49c89ed1670cf4a40b7587d7b1d462abcb1a9a3118a44d785452b7f6bf7, 0x2f661505bcb4f1d59ee876672c134234106a712d018103d8fc41365b1565ffd8, 0xc6b9f95f4d10d5525af74971091566470ee79628a344578d83d75ed7a5e2a7e, 0x341a205e094e1203cc6a3c3aec67312efda1e61877bcaa25f79d9397e15884a0, 0x654b72879931ea4d2df9fa3f7db420c1aec34e759b44a3d5a54323abd892ca6d, 0x6e314f9360dc0dee082c44bbf0d185c489fdde3fd9c3c55be7240d457ce21f94, 0x4da2c5265b31a3eb257b2a7dca6e1ac03108feca1f02189999ea73b2e129df7b, 0x37fdf64a4419ea9cacfcd19324ddd5641eeb7b523da52a60fb036d9e3bf73bdf, 0x56a1bf44667ab184c4c31b0e67c4bd10cc71d1587821ee0aafabc4b2a1923aca, 0x10477b8a48293d5d89f7a5f4c32b3d9e0b54450cbfd0e51a9be3bf66b6e34066, 0x55455894f69b39cb06cfd6c8c569fb5e33729e0be74168ed1a5bf3e93f7113bf, 0x4ca0967b42eaa9d68e55ddebb07825eeac8ebb824f3dda27f456487a3ff6b249, 0x1705c3481f3fac202a01c036fb5badc294af361d23c9a189f5a8bdc05445bb2f, 0x217777fa15068a074cc4e57f1be7b3ee4b05d5ba22b5e2005e5c537d980ad2c1, 0x43d2e51f20e59b2e1cdb9fa36d02aa59372c8c16858c947ccec0e55e78f83c2e, 0x29b2cb296dfcec453eaa9722d21aaadafd6939407d255bf4150e33cd838962de, 0x42073bfce92148c024dcdfc685a6d5f946e705f03d7e24e368e9379a1b131b30, 0x73154c1314272ce25391e04f38681c47f2576f023ed2a47c6739a29a41e00d89, 0xfa29d65528fe4350ccc7569a672534ccd55981632bdca77dc5120de82f9c9bd, 0x57afc3041bc34ec351a783536edc3a88153c813ed67a1ddd8eae78ebe74f4de9, 0x4ada4179fadcfa5c798c384a03d5b2fdd7f19fb6de193e09eeada629caa90e14, 0x3ad9f8d0722a5a92da4db79493f986fb0ca8e0bdc0756aadb4da9aaec2c72b1c, 0x5a0409122f8247b7223417ec651557aa916100a2594b1f1d1774610442383d0a, 0x32ba08af133eb075bfb7c98fd6ce2751bb28b999604228a4ded367239c7746f8, 0x34256884d16f790ab3360f92ca10f0a192b89783c7e26f6bdc16a84625a92947, 0x64510ecab08b8db37e44971eb2f50929382a0eabfce63e5a66d71d30a48e7c96, 0x361f5e7b9b4cc4bfd86bd6752cb52ce0925825f9e636c8c237b400aabdb0cda9, 0x937356261cd8e2525bbe4df56d6a1f103b94b4f0f10b9e4f4f85ba79c11a64c, 0x20394b1e85bed842ae4c145bc0b1074526879de86ec7a974df2ed2920c1e4027, 0x3d023a9796ab048bb0acc1fd1f16608d07279585940c0daff8413c65aa362469, 0x542fb6f7b6037552a9df0348a4cb098e961c5c278085bac91e5b10d9d354a5f8, 0x4e0cfcece74762ad89d46487771cbcc3584d48a87a6fadfb1224e3c91a30f7c9, 0x417db0dd355d9e83d4a7fcc6fc7e55c3319142ccedadcf4fdf070eec0b5e5b04, 0x5145b0b6075f977095b8cdd677c8a02df59f7c3fe718dea664a265eea62f6482, 0x35a7b8f9c8215c53007365f62a55c8fe2bae0305df76d1eb7f6e68c3834b50a9, 0x1f552b651a39f5c43b91417ca915b548f573f05baf9ad2a22f12a2829ac52851, 0xfc424d8fa3e4b1f1366cd99b3bcf0f41874e67c8925fa3b693e0d2c594443c6, 0x6a285cc8dad399c3b0c49c7547c6c921f9ca4045a265ada493e7159ca7cc6f81, 0x33bcb702c3c995d9901032d8398fa00c074891218350db5e60290e685bbd9a71, 0x69310e785d01968b986f5a10159020bc16472102de0ab5e4231e012723eec403, 0x4afe0422c6c1982e1cbe724486ec17049edce79fcc9ac901d3787af13099e49f, 0x10e58f55da9ce2231fe637f8c2f225cd4755f227a03315a1a4fc30be48074c7c, 0x6de4b8c79d53b46db44c301a7efc92b8c848883efb0497b2af3d408ac54f8d0d, 0x31743f4d7fdf594f583cb267f382275afd459c20764d419b81df1ca4069dbda, 0x272cf7e860005e785cec65c301c38ee7202ad2832a9ee430e8eaaedda89245b7, 0xc134d0944710b2e0bcc54d021dc24f6c5165eb3e545f59398291f8e38cbed2b, 0x1d5db9087924561ae87f2dc65cf2ffde0955e055a24df4e25458a65041ccbfbd, 0x2ed684e75644269c8b392236d7a06cac3073cf018eeb15e563e64005c6d10bfd, 0x52a45cb76f8b58a7e5ed4297658aa6b3adc19ac7d593eea7f2028a94e5fe2032, 0x6c29ce3c4be06f0c68864f88973a247f5dbd78f8969cd87c279eaa4d39a62881, 0x37878ae7c20b8fcc467cd4ced7c16c27a2c4daf97f60d14e7fd5ce95fcceab5f, 0xc72261d08aaf83a6394559ec03a955271f2210bdd6217b1bcfe1440af835dd8, 0x1979fea3a53c99cbd4e03d725f16c6ac9bbb3acf2b71469d5e6cd6ea45f2408e, 0x580d3c4971f54e0b358f794defe2f7e39b8418fe84bc255159c2597eb6f960ac, 0x1aeebebb14021754437381cd658a71d876cd95e339192fbb3abd35f68a6211c, 0x5e6810dbf085e7232bb7a36b1f29dc9f4c07a9bf1b5205f8e89423fea4aea17c, 0x36c1e3366d90915b2f679ba7d976a617e16973e60595a844db41a0307f01c8b6],
    M = [0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667]).* from "../poseidon"
}
