// generated by tools/gen_poseidon.py
module neptune_t8 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 8, RP = 57, IDX = 1,
    C = [0xb033ae725ef356d790a3626bbb80ad2661f511df9668a6a4be1f7c53f36dc1f, 0x13f501d0d9dc8aadb12b05bbaafb081ac0708ebf1cd9b8f9ccad2f1dc3ca1a21, 0x46c9504b0d0f14370d33082059912b7d50ceb8bb5402d40dd460134715c5492c, 0x460704ba881076db8ec107657ced05d8f4d71e74bd4dd837835315410b5e3a05, 0x63dcc2ef09747b4b5edad46eb8a406719dbf17ed140e6bb23a39be3723db3b0e, 0x733e1da903b29ff523fca0a872b82b14237a51980773e3a104ab8d3f87081f33, 0x6fb59cb719be2ea6205e4e784ac902fe50bf8cde969324fcf910b6f19ae9ff15, 0x3228930f17e942783e49a4adf7b0f34dea733a0416d3132f072b7942e2a58c11, 0x5c6e0351c649a2457b899ce619f78885f0968de1d3c6397f1b46bc18b9d9b44f, 0x63bc9a221b8951af5fe8b26789d9615caa1f6177f2ed13abf4173a702c4a370b, 0xd4adc74f38b0ab99060432732ae7fc862634d2cd88baac44301cba8088bfa77, 0x172f969ff6b74224f812651a47fcda05e0164f6d18789276e4108cdd3324ffee, 0x2c9ebb1dbd840a7cc234b775ba5499556db1e513ccb73c91ed759f8178e528df, 0x2fba253ff4460a8c696b20c30b1cea0d89f017d3e519c2d4eb39f71b9f24c468, 0x6a372e9a82ebdc14cc641185574b08b416da51180b20fbf7ea5678d99f2bfaa0, 0x16b52700a4901b3dad12625dd556738df899100f4a44fd10c0d66ebb9cb46ecf, 0x612a6065a138039fe1342406b13f9377b20d92c9d1f6f2d95888ddd51b34a703, 0x1090491c728d9cea14bea2c56f944d8bf47e93b394dd08038ec8c83c3f6319fc, 0x2be26b9e3d33efa0ec16d4329c81ec9cf660108b7f456db8c0f6ffa9d479e81f, 0x389b0935cb76634a207842e2f446ad8b6413cd41ea4b3950827fcdc04aa6e455, 0x23765551f9431a4ea6ba6fc49ce178d19b90fdb1ea2eff797be29b8ff9ba372f, 0x3f1e118d8790674e68e1a8dfc2d110ae40d3863e5195b46a673356d8620e461f, 0x3bd76283c6855da53928a73bb3f0a67c40a08dd201dd4a0e8130bbd59afe091a, 0x6f7abbac981c2b3dfdef1ef81c1fab3da676dd57b2df15607c282f135e73355d, 0x57c9061b4cf2baa5a2c6092ff10eddfccc68ec3cb793b9afff4f4d987dfff8b, 0x388251e0130c0532c41f2024dbc256e6f6627dd9bb7d0c4a9283fa9231d02f14, 0x57305db9977331d8bdcc3b0442351cb3fa20e3644158c5f654c3a877748d326f, 0x1cb8e043bd102caa4da36428829449fbbbd912b24441f4c2b194dfbc9f7ee644, 0x2c766830b25517e3f86992ba960c8e669d8129d7521e0440f56a6d60e6f56427, 0x12200dbb28f810a625eb52453516f910d81aeb50a90462bcd919e18e7e1cac36, 0x738406770e09d74403c3be93e1b70e8c266e68b6e650ca9d6b2913ebfc5f50e4, 0x645880a7f8e5721e5dfb9e30fdad628a1385fdd9d2c454c4e93072efe6827285, 0x209cd24a8393d11059a65cb2a5638a7335310f200362aadb3a2f97a6a0f63866, 0x2caa7b0be15d347cd3d7e8e626acd94173f4359a0f1d3ebcb4bc229d4b11e19c, 0xd0d24753f2de9df8a128ce943e7957842702be51284feb94389a5b893f2dedc, 0xf7c085407091f8f157749070e0b13c8fd31d659ab32a2395142b54151c9d57, 0x3f0cfae133d4e966b0de49613b7293829985b9ff96f5409970a7cffac4cfee9d, 0x7144a4bb523a0b3314d3547e5754d5cec7c592a9318f50825e0fc4053000f1e2, 0x63e9c7fdd9f0a58da87f62399f5755df671e11e473eaa6b3b52c515acd305048, 0x5efe13c53bfb2ebf6dc0c722f4764b23174eb00516ec4f42f8999848de661f99, 0x47deab133f354f5227e18641eb31ea357bc6633d6622a4c2b9f6185e9c039fc4, 0x4728819ab318a4a70e34e6d357f2d5663c175cca5a28d41c17127e203f0bf38a, 0x5068db2c6375a60c2fd3db39415eb93fc494b49b49c534908fc95d7f37b76935, 0x661712a91589c2b1033ae91606a738d1e7a300879af0beb3f14ee5b7f1d1f26e, 0x20ee69608c6e115fa099304c011fb6a3d98101148c63973dd7dbc47d1b5d0891, 0xff0d36b9dfb636d233a43c4e20f6662144fb6e7af975b560d95898b3910d87f, 0x2d0783bc52c092a6b2af90359ea10ebde8e0d09e66bc6fbd57ac4267756b46d3, 0x3324af6455056ee3cbc4ad594faf71b75c62c5bae2a9c035caf18909565d7024, 0x89e83de456b22781ca3d840a52c6e80dfcccbbfc05fa827e9cfb6828f32087e, 0x5ec2b008e4656fc3b87d11283fa54845d55497fb4a537022b84243f4d73530c3, 0x5f75485fee83944f011a0771f02a524024b39dd4b0f4428a483ba1dfc7c6c7e2, 0x157e81447576e04743099b31fad5e09584bc3dfe4136fbf7085c687dd90098f2, 0x71f723b2e1e4a411ea3a25d706b2d87da26fd6d00e7b7cde3faa0d1d089bb23f, 0x3eba7e6081f8b9f21c7bfbc215caa09339dfd3f687af1e3d1b08703ed1a2b8c9, 0x1b67b550e28c938ceecb310c40355e1d57c24d002d5342cf61ba3f1de982c099, 0x70749be6f730add95381452121dc3b8138aceda4c40b824b6dfb8845d7e7487b, 0x2e91a4aeedf9e0f4dff37031448b32f1b2eeeba64547b4ae101869ec56fcd143, 0x56bad264b3887b9827f3d535352540ad43c49fc20a846b1f0b57730b25b30ec2, 0x3fe4ac878bb26ae3aa41debceeb91b1940ed0dde74a1db8e0c4c0bac8c45bcd9, 0x135f058a13d290da4ee09f487ec3513aeca343a90b1c337b7cecb44122ab3e0c, 0x187a3df85148c17835390fb98b27591baef17d39b07a0bd34ebb72b3376e46ed, 0x235150705c6788b8244b635c900328dd10ff204c3509230cc8b577a92bf6ae73, 0xa420d2f3967d55e24bd48eddab05e5062f636414ff8ea622d847525d2fbc450, 0xea2630a17696470b9475b8b4894e28fc450c43907f14b93c0159edd8ebaa58a, 0x2ff12701962c2c2ea702b0d4535d32304d786a67b1f80a0b6c3e86175a131cc, 0x249c72d1a781dda5697b629bbc81b2cc2ec3edf3dda53caa51eb04c9f3902321, 0x2c1a96d37381ebb98eb56d7d195fc5f52b3198ccf555f860768d8a3a246cecc7, 0x60fbbea474a22ed2603d06504f5d28f924c9e1ae7e84274f0ff27b4934ffb969, 0x30aca38c52f97433af25cc0ea57bd05f5d9523a0e7d14ffd4a4aed5c6f73a9b9, 0x16fd10e125dccc0019ce94b853895a3aeb303aef40af592a3d4fa7e986f21a58, 0x64d7be0299d6c18da3cb7a9052486ff4e0764d66af632d8a6d17c59b10396b42, 0x6787abd90f9cc80d650a3c77fc0636da8fd884c38d582353330ae887da3329b4, 0x6329d1afc57c6fe6cf9dd931533cae07e35bed2b76cb7986905679bb84a1de1f, 0xd114475cc50173d977a399dc8b78674da3bba456c124f508801ce17df4cd27f, 0x15891d7fdf65cb4b55bf656a4268f88065047244a40d64a506abaa2e77b298f9, 0x2048fea7830c0cf075f66a32c6e45ee9b935f442591d0107abdeb4440c322653, 0x2902ec2978667a8ab684a29e566d60e47482369f98dcbb1ace425e0d28be76d9, 0x387340f70fa33921bad8c8a5221af173bced29dc4521fcbd164fc063c4e0b7, 0x52c2cb22b4f9f812daabd072c8b9bfe19d3ee0d5069b1bcdded7d0e274752e05, 0x644658706a4e46291b4b4ffa129dec4199355c638e029dcba68412012667ba49, 0x1ace5a9fba14e8fe2c04f2e0fde0013c3d60223150098f8ea63f363376efb2d9, 0x7ca497f4db85b083e230703d5be4f9f3e5baaeba5f8afd451fb1e5fd7618337, 0x249f7ecd516394dc1dbefa142f5b0d5a2461ee0e4fff04d4938a49b0f70fd295, 0x667c254736eab9f63cd156eff57654c530911204f04d4bc812ae8fa4cf6e287e, 0x2ae44561a5d08f74743ce18a73609f63e48fefa3ae4e405298b8b051004f8439, 0x10e4029bfd28c1687186730a31077af0b504f16f48a4a3a8490e1c13a2debee7, 0x197e8f996546c6cafed54c44fa1779d037eacef3eb2163f74651bec20aa05b2a, 0x34cd1b44c4926120cda562fe2d639c0faadf049dc763fe5888e795d45e68a5d7, 0x60ffe67a1203c1dd9ba6ac4ce6f8bb859989cf4ffa93018bcb974f3e4c6e6ad6, 0x3546cac12f45a1253349c2b5d377355d2302571380b2f09e05f9a63d917de932, 0x1678f342785d1b7d6085952b04f1c80ab441ab8cd7e19828ed6580207db932c9, 0x4a6764f3cdebf016de3098b001722c3378f94780092e58e81daa3ee951cccb90, 0x4d97b8236fa595aa18db0e6fa40f32cbd734a59760f4aa412ef0cd6b07c213d2, 0x4843a6e1ec9fff64cf2db08bc10057d63594ac23867b07cba58a68d2e91ba758, 0x45a782230a552090ed8ed68b0aa1ce796cbdd02d27c99a24bc82a8db0f28c1ad, 0x37e59af0e8e97b43c757abd963c5d1f1cd9f7fe6150afd8c6840b6bdaa98e0bf, 0x2fb402f1f023a9a148eeaf69cf6b8df708d272fdc5fac42ba5749b726fb4225b, 0x405cddafd8f83a183d4dc343e128f79ea5f0f1a24dc550bb70284f1ee6af0493, 0x5b23705ace20ac8ceca9d8b006f9a3b6833a21080f7657016fb0ae6b83e20a4e, 0x33d3e4ac2bea2ea4c2ca78ce5e692f56febe06b66638717c712ce25db10ce538, 0x2b305dec66f17bd9f7371d8326dd77e087d58e7cf57576efc0f513301ad4c4b4, 0x6e8c3b1855bf1a4bc82ddbcbea5ac2070dfc5727d54cebedfa38ff75d08cd0ac, 0x152bea024826b4449e40cc75c78556dfbec0b8e8a9c7f040a44e82e0396ca1fa, 0x2aa65919ff961bbce12a44ad6b4cde0962ae21ded56f4dfcddb5efc72ad5e8df, 0x374c8deaf88a37c09b1383a0ee60dec47b9cea67aa1ec6655873da81701d7b50, 0x1798f096286abc5e3a26be543a7f5a67d406cc679c7bb70156f2569226927f6a, 0x4b61eb395d32a406698afcd3bceba77b280cd4a7432608838b6f718936decb60, 0x40a533b03628a36e91083d517d24b4e19c05e099f881e75e099310f449045b1c, 0x66e57c3a704c8ff4887c6bade7415b366a95ada5c03771ab64f220adf1e29028, 0x4992d50f9ac872d84fb33b893b2cf5cb2d830ec115cc1dd0c9bc903037c33928, 0x3cc89076e8115b9f33e3e9d224dec8ed4f4afb9f9deed8a5252ccf1c10fbc55c, 0x1ecdf7e7dd57b27ca7e70754be273d86a2d0cd1c54af7df861d54690656e5798, 0x347b101c1c0c749e723926531b8c2cd6e8944c568143f47a81f90e88d1688342, 0xb35c1d6ba8aa53713edc4d1aa7ff4df5d1355c2fc6308c9e53d7dbd427acc8b, 0x2c44168a13115314354e0f2d75771199f712eb794f012d70a8e5b0fb64aa1393, 0x22e67453043596e9c8832ac08df901823817fa81e19a3e91a46c78c88e29e4a4, 0x5ec0a988a904d2932b7c36436bcf5368353007d6ac4b85fb13f7f6f993fc39cd, 0x124002efbbc2ab2724ac6d3c22d05b24678b30b7fc6b4d51b8bb194a47e6f292, 0x5c14595a95275399b9bbd7150cd57ab7f649eb4da8e1c32af2a794032c8d83af, 0x294e60c8cf275cf8f6568f2763f3587acb4112d0f02a93b871d11ea981f25600, 0x2954b846096e84e3ed28e306897578a0e526a8ccc449cd71ddb887aef672f1ed, 0x70e9108a99aa50ce4f521442e75eaafa65fffd361c6fd804f46f7dc04d1db694, 0x1669aaa42104e18c4d1afa6d947e40686bb1551732195b2cd7490289eba30761, 0x662d383af206e986e3504b2f753fe97a21b86c14e1c913aa0ac0a3517d9cd277, 0x97de29bc29ef0918518a1808e17a51a899180e86b4982b81553f1a17757d618, 0x4e434ec7a6ca4ee3bfa744e08051682fec9e6fc0eaebc963b8bf29a62e0607b9, 0x794c7ceb813c5b881b8cf882bcdd492f80e3bc950ee8338beab07f67fd55b79, 0x106ae3c622cbdc6933a9fd0887d7563658c8512ddb83fe17cbb6b2872e1c5407, 0x213cf31d70d23e18b6de03520a4089e88297f5b65c31dd0ccd339b271e1466ee, 0x2f75fa3fd8327929654e81cd89da470f953a6b284c2b056992354896808f0458, 0x575e530a296d7b1ab64777e35c0930a81901efc80b19717cec4a201f3583d7da, 0x14ce1207f57e048d89c58e5f46680c08f430fe92804c4bf52c522822786fa706, 0x3fc8a2112f642fb6838f18223183fed98b5329b11318d1f7ea64b6b1319c5bd2, 0x3ca0f61757e07a5c643431b5b2aab6c018ef15a9fe654430556141cd4dfad961, 0x1f176129b7373f53f044d44e93cae59e48f0553a135d6578c8b2d65a7e9cc1d2, 0x19e0bcdbf928a18c3b1448656209be3951ec29b38b8d7cf1a5301242f88fd767, 0x19ce240cfc708c963061d12b7fea2cdebe93443707e56fc4f50a8fbfce9734db, 0x650e8541cfa49b7b139e99ee1ee2ae787fd956fe4fd1c989bbae9e164ecdfac7, 0x6cfac57e36ff1cb3f2f8c1369fe0b069b60f738ec5db71fd7bd0e0d86381e907, 0x33985fe39b19d6dc581f1a54f8f7cb115325bf2ddefb6019a8127565bb4f89a, 0x45a715baa1cc2daea52a15ebfc11bc8353180f579fd4df17d2a69a88e6a3a0d3, 0x2e09444f486eef70f769288363963d5f6f175bbb87e884f28da8b3ea58f00feb, 0x2dd12a99b0af639499b6a1456eeab724f13ccf318a487675a14412f908db2a27, 0x63b092656a5afa73141bbbc5b3e04e7d86ea0b227c825d13a6914dd1d70dae52, 0x3731dc2d437c050589563493cf5615fa2e99bc1bad985eac45a350b5dded976c, 0x510d1d33e7faec62fae748a630e56aa0e05ad2be9d4d449080480a166d60a0b6, 0x5e93f4f2d5a06a1357d3afee78d53c37e29344f9f5b534661b2342e842352f54, 0x588280483be73c138a1b83735eb6d3ab475e988c70e15d7a774e84801cf573a5, 0x4464792eea14a02a62c718afc37db5d632afe7b00e3b382f18b3857177637bfc, 0x1c990d143f24dec225754897ac76d8a18b63e2a6fca0ab4a34026551417edc06, 0x2b01894b0e0c2ce0e934da71da32ed420231ac7bbde0a2ccd036ad67b2e1a7a, 0x2b533d70f4c4feb22accfe1926de14fc6c59ca5411b1c512bcd9f1900167c218, 0x4289d156a8360e325b5b2aeb2889bf09627524e52168ccba9f6fb30cd3a631fd, 0x67231fe5a0ec8ed7e8a039c3a1602573b3e7280b9814c6be9ccb9bca3906c91c, 0x4e937e0df2287d9de5202a37039a232daa5a919c354329708f0c0a63ced25049, 0xcab0fb17237f92f733d906104fe8996ac0f563bb31d50b1c57a087817ff05fb, 0x6f88c59917feab568ab485369e632d114dce43a7a7880ca4807a4a7f1ec14e50, 0x260dfda28a3734c4d43b1707f481aa5a32329eceb23091628031cdc311a5dfd3, 0x4cbb316075e9c827d2688a8607a0efd237b899eda1f67739f9dac13e70061926, 0x52f0ba82652f8319c2568b117793550eab201f73654b610eb6c584ddbf787658, 0x5d7d20e16f272f1dce04fe924dbb98690f4c8ad85cf90f7ee16ef76c7fa7a532, 0x6424656fccec5d59f676e37fe2f001bbe4e5eab5324f43752eca568d2b9b0000, 0x230a9affd632bbcd576138ace94ab935d64504775d21a33fc893eb214b49e782, 0xe7e66ba2d87142dbe6fb2c34e0ae1e02c77c62debbab70d31c9e0a5a273b8c2, 0x55acac006561f96fd4fead1cb6ed270fed13dea03e59e8a547fd64003384386c, 0x45e0907f0551ed6bc15214f68960b602ad96d73e998b7aa407bf90364149cd34, 0x3c7820b68c4d272e0c625605af08422cef17e5b4dc7ac252810b4298c4081822, 0x15f38235f3132c274a9815795f8ea2e056b91d9d3946178a8c896a0767a62f64, 0xddcafe91c3a32db6bec121081c3c52e8c32d33fc83e834340ff31f6ac3bfd71, 0x2a262c139b849a9501a4f979285b8ef7bc846c51b1b8c79a42e208d30985ba8d, 0x3f0e31b6bea9e3cd231ace66db1a2bd3fc1357e4deb6fda6328b765d8a50b452, 0x4ff8e729d5285e87177f10a6c4dd10bb3abba581f769e1452efa6a0d98b7805a, 0x2fa64808ccac0013f6bcf6270afcacc1842632784722ad73b9c4f61d76a39776, 0x4719ae36de82ccf52deaa0f797bfc0e389c599aaccb49e9639253c753f248b17, 0x239008546115f0b0f6e265805f085b2ab8a6fa32c3879adf36cd60e59ef80472, 0x2bcee96c31ba7ee900147c1c6f27ab2fdb936acc70741d8685d16dcbc525ff5e, 0x5942bda6a6b93f52c7535fbd3eca6225edf55fec2e107f25e062d85794ff330d, 0x6fc710394c1e6574a768915e385471ef74bac22774dbb3c48d11e61474ce2ea3, 0x2cc4792275da6d8e5e35f9716e851636ea11c43e717cac9c5a94ef33672bc975, 0xd9063326136548ad0c969c57e5b7d435b5884758685a47269768e89d4e33149, 0x3b2271c9e5da8e62a57edc3f2da026ab68945be73289cd318214130143ed3a7b, 0x5abc208a2016ce5205e70c30e22957a3e961210bf1b2feb6e6d8d66c0449600b, 0x64a984c7e592d491a12a1b7464f0cc2fbd9a98ad1afb82ff0ce203bc9f545210, 0x68d70a79561a1c595098b3abbc4b40f703517db97c771427103c4e13560c6f7c, 0x5ea9a4f3ff36e51c51448028a1a45d09ca89eab008fa32a271b1e0f5a544fa56, 0x120fac871945e3a5dd7d960d6f70e027fe18b436f9a19cad78b41ecbb820c435, 0x56d2f3150604f3d2a1ac936bf66899bf45b424a4b567ae16e3afc735a3274393, 0x3b6079c61f300ebc374d6c17c0790f07f5c6c8066939cfb929f1291e39be77e5, 0x3dc1bbbb99421030372583b9a24a17354cf3ce41ace2c181d14999760c78c0b4, 0x2d9929884d35f735222e47404354c31ba82c86abca3de90cbf606d128f1a8036, 0x6608fc31f5dc064424b9fbe4849c6d5bc925a37038f35b149d94bdfa903bf4be, 0x413a37cad9f5bb481d18161180925f1198b8eaa4881506d2802131d548d10811, 0x25e2b97e5d139f588739d10c628450a81dd437a215645eb8cb467d88a416c397, 0x207c3d8e2f0714abd5b91fc5c791894651c7ef619ee04f557c81fa2ba5ee2393, 0x4fb906478c81ad60ae1317bdbca6f8bfdd5ff46fc737a442ec9841036476e423, 0x35a80837d48d9be9dd03b86c81ca6d643d3ee984007686e332e0be6ab304a032, 0x131e61c429e16af1762a19278c29f81a496968f6888f2353adb39536437766e9, 0x4e9911f1c55ae0036cffa6a519515f78b38870b279e701833c7973771607286c, 0x443687bb07c5c6a897d07d2b9fc3c50418546136c520c31bf1f2d44b51a4e319, 0xc154893a8c7a5c4ddd6b9d04bf1d228c2ecf90b845396442b8058a401d47858, 0x45716809e6d3f508dda200b765b608f00bd6ddaf95023657b923ef38c27db8f4, 0x447a3f08f1d9ce6067b38bc857cb5e593e91a5d8bca37589910a28a672df5fbc, 0x3a358e06db86af986fc28356cdb0663d95930a15e229ddf35adcab7dd157f77d, 0x698c132a0b9486af652fe13cd5d8f9419580d869505c91f73f92b13fd60e727a, 0x2cb0fe65ccd92206dfcad4269ee5296763abaee2f35d0bec182a0fec89a59a75, 0x445887f62c370ca31716352c11dd6e2a4cb12da0070e1393260bbbc2e9bfeda, 0x57ea7e8ca99a76b3e8725177aa5e3183716cf682d7c3457c7a52c8a28144924c, 0x18414fc09bf0b93ab83ff0171fc028f91dc78278aad0e9b24e1b33ebc8276b07, 0x23d770c254ffdeeeec328747398c79faa99a9b499afbf34d4022e4021ac3b6eb, 0x1bb66af0d0857cff901ff3bef1799bc20799deecd4676b43d34a238f190c32d9, 0x214b2d23da0429f5b182d9aff248bb2bb67f1f120f99ad3a1741894976d3ed2f, 0x6e6e6f1979556bb834bf1fd02a2dc8bf56ba74ebc580751d98b0d9ff49b12e95, 0x290ee8a0f6f7fafc95c4f1f8d59f2a16c062709793aa6d6dd56bebb3de4cbb34, 0xbf9a0d26543c9e7e8c3f354c2c6af517ab63cadf5740756fceccb10ecc422ae, 0x66d1b57d1ba2ead37bace74ac82ec03894044ed361d8be9bed7e8c62ff516233, 0x540357074f85256638a3a11ef5627d9fb258164a660a9aed6e1fda759a4a9e9, 0x6a1fd2e0b57d30db2139b74789578c71acf5311937d4ef81c79f971d5ad1d62, 0x4eab6ef2c623818ba1cfc6756b3dea87b3e411d3a77608fd74326a6bc9ade714, 0x5205238ca6c4aaf45bd9e69299f10915162ce2db506b207e97a8119836c8fc2e, 0x503f55b1076ad5ae85470651ea230a323e35d09f293b9d4da4e1c301843ffbb1, 0x1da8bfdfa9b25e088aeb75a0ea480acf9504ab09c6feb790a393709af833761d, 0x62eb993684ca7093bd5709d50428e6ceb93ba910786ab4c5c0b52dac4dff448e, 0x227bf8f5e82b1b5927ce14b2df47c6f017ae86b2238af7644606efc0ae91a60a, 0x47d929cbd8616e4821bff074466635332447df7d47a3ccf756de43eda8c40bec, 0x5908dc801e15139ad165aca3f7b8de0541e7aa1ab670f6a6fe297114126edd7c, 0x3b0ec5e140fed08fb7e05e6639a8a6981658c8c2a3c3f8fe00f37aac9172fe6d, 0x18463bdafb22e0e4b493440f29bd5bce7161e1fbcb405bf05bc0fb660bd50785, 0x52309c8636f40555d55ea528fa1cda3f30588deec832f2c01571b44ef7f5fcf6, 0x2d8fec4258547cbcdc87cec2c9449991030da9180d2382450777b46a0afcbb7e, 0x57e7a802d876ebe8d8b958481f67a396e87d06dd6f7ce488949b4330ce58a6fa, 0x5a56b2543c4054e135f9d94011674afb9dbec22bf00d83e28a9bafc580a3b37d, 0x54d1ac40fac4f238a07cf6635203218cd0a015b59817110a28ae98f5ef742981, 0x1a0512f9fd16817c96f5ba4aa9a9d32d8cde2c108d6f7dd59773f3e9d43969ba, 0x3c3e1ab1280b8e0bdd516cd4a274df530f0070b2ff3bd25477b8f732b7beb7de, 0x1f486f671848ff022d1e91d0555a509f67eb804df975dcfe0b1e738fbfa03f78, 0x6a4879109894bd10fc702ad04a284b9ebcf856d79f3901683ed20aecc35d2555, 0x14125ba9bfab4689a22eb7cb0185c488e087aca3f91b87a1de37604e901f1802, 0x56c142920396c8953e92c9a878a81ec76883d7e15db11643c3c8516b3d9d3bdd, 0x4482dc582b0f5ac456808475eeb3a119271ac6463103dc21152d892a01622af2, 0x65dd5979eb82d9703b53be8322d78a02b339a16607c82969297e89b4c2839e3f, 0x383c656215d431e10607389b74c44ba3b0453bf6125d1f849a61c1e7279efe2, 0x36c3095d34e604a0a9c6b53af6569db2919720a7f74e18ce90adcf7d3fd649cd, 0xd24d37109e7949a02810672d8baa774f4c704d426901a3429ae2803b54af426, 0x3f325ca670342895e58095da6f3ecf8864ae8790af947612c23bc409e7a2ecff, 0xa5481ddefaca0bc4f64fd33f5e8f0b529b3cc3c563666779d934d6e1d22cdfd, 0x3d33bf170466f45e12af60aeba172b5cdae9158560f56b8d4fd4eabb9125e5dd, 0x67d561d6ff9e94acee80d763170dcd546de8e461b36ee9dd41e2bbd547b3dc6a, 0x30d38c146d3cb5c7cf6a3f3a2d66863aaa000f4c2f5512c417814c92d0a1180b, 0x2de9b2e6dcb33cb90ddc5b55d28e0a337025a5ea75855394b0550eed9747d69, 0x3e9addf6d5d1baf3b97ecc470012f868347e06f124dc352b2e7642f6d2b197e2, 0x5eee7b66608214d1d88ed2208403fb219902b10cca7759d177a8780b097d76c4, 0x67cadedbb0e5b83e9afd1b903308165fbd99d8e526189999a96b397037adc3cc, 0x438eac6cc7ecaafbc8769fe2906502626f7015c16ec3fc31fe6feb74e42be65, 0x1a80f33da67af976d9cc34e6e5e586ed94570ee591566c92c5d2a70f9d0bccd1, 0x8552538341de80e662c3d1ed1667dc8c41fba374b10cc4066e8ea0b80965de4, 0x447e6739e5d10cb910a8542920ba8e0124eb591d38f520761a08de09fe06fc23, 0xeae7b91ba88e8c94a90a74d9f763edcad5e3b7ef8a0b4ac2ce3f5b9739bbf63, 0x2754636bd85b3898dd1b49187f7f666e01594c701cdf2bdf40af44371e463494, 0x6d68a5ef160ba9d356fa704cbd693ff644403d2de6ed95ee6e270e43bb2e4c68, 0x2ede3d8e6d3350069b2e3af54cbcd0e0b587fd22383408b573a448b4cf99e114, 0x40119a35f93fdcfcbe29cc42098ce3245f0b8fff031757dbb23f75b3eeb638cf, 0x56a705a5ec983ee01eb1bafb65d7d47d86589fc0738aad26c35fcd4bc5719fa8, 0x6606dbd7660d30ec42581b5545315e9c637091b5f8341ee100dc9f8598ca0aca, 0x71bad13c4d7991495562b35cb48c9545c3eee2d1b141749a4cc557f4dae5b4e9, 0x4f8dfcfe5455a1ab0bf3d9b432f361504caa5cba5a8164cd9a355014a84bfbf7, 0x1069fd84bc2572601d7d0e5e97154431cf28b10fb0acb7b516a3800be0dfdf21, 0x63c8f2fe4037127e64b10d517407c5278fdf2d68c4f24113e3624771c803d03c, 0x5d1090b701a84a4235e7260c364b3632230af555325abe85a2de0cb56f0fb490, 0x2e5f634edbc7a48b7e0139466283ba5280231d85a2b6c41adf14eb3748db6ee1, 0x67a1fbbfb23d84592e22e433af759b49814b9071d0d1690795363b35518fa4fd, 0x3047d72a1157b967920805e145d0e5a7655c1537418e2dd6efbe49f5463c5d3b, 0x3a17e760e3bdf96f399aeb17c330d0e270717ab2627a385a5610cb2ea73219c3, 0x49dc0dfc7be0fe7929d38a5f4120dd7d93d899ab717a1280c77a981f5410ef48, 0x45a1bec4fc552ea0d6c4cc4dfbfe378ffd7222053df1835d10a04659ea59204d, 0x68990a4c1affdf36a1f30968dbfddee1b4eb94bec4c7fa792985df431387640, 0x44a7258115046662d7a9bc0f0874d1a1dca563a42114a718649216a350915c57, 0x13a12baf4319255d7752b74354f781460a6ea9c57582ca9d1957853511446d27, 0x3c1f00645c337fc6b91078d96259c285418839482da35adaff91b3cab2102c52, 0x5d6bc5f2587258a51993b91caeaee852613120017bfbe6d35b34d4fa9ebf347b, 0xb771124e1c3d19a21fb4ed37880a0cb7863f5374b5ba5b43d4c85dd47fc2a59, 0xa8ac03bb81dd3de11619df7e67a9e646776f292231bd7f21b0d4a35958c33dc, 0xf907eddf366c7a355b1e5f382e6b53a5d5ab4e90b524f9d148f655293dea25f, 0x4bc7a24f5aa6c1616aba5a49a4c50a195f111c02774465861d90ba4761c08785, 0x1d6a8ee384f6057182e077864063742a4bff3719385e486348c6a0fb3a9ab736, 0x3c5ffb8a30ba4ce92690555ee478be9f425ee9727d2f74fd0ca74486eafbe1bc, 0x1ef5880a5d39d6846a7dbf57d10aeea1f1fdeabe3a5a83f218be29e20c00638d, 0x5fcb6dc876b0de5a91630fb8f1cb3eba5820b3e9fe98d78483f07f1b554bde9e, 0x584f51da6992d3c552f7fbc53202dad48fa2d8dbaeb91148e19b9f13aa9f0b51, 0x4ded68331271cf9723a3cc5ffaecb5bc803b85cd61ff4af88cb24086ce76b265, 0x1ceb071d0625680ec8dd9a33a51861f488a391e5be6ec526e9ce2c6d9cb0698a, 0x2d85425f4a6f21c4d66cc2c315f2f6f7fdae16b189677a24f861d68dfd9bb8bd, 0x19fdfcc046c033c5643589502c3247da87b8616bea85331af8340bd026cddb4a, 0x6e3b3ee4b244ce4eddf470e4bb0c8b830904ba6947ca0f67846cb31431bdf11e, 0x245c5af8421f034d1cbb075eac81cb1f3e1a77394a65c97a64be68b606cc7aa2, 0x4d896a20f357a34977204f1d82a08efd7cfea4f35fd422258ee0b42a2e572f07, 0x5aac2b5f9b8cbd719db529ec1f99eb9ffc9d5d9c405ca845c90e11a34c911dfa, 0x4da52510fee121a60050a654a97ecfb0251e7bd8ed0248da5d76bf4a075450d4, 0x120a3cfd59a705d259ecdfc7fe686c8f94fd7f9d9f6a91a46ae1753aff972345, 0x6c0a2ef8499a11af392a9d223caf437ff21343855d5059225e92109d02adf2d3, 0x3a53264ec6729effeb1220d308b22993606aef5729ccc5fb1e3693f99be56511, 0x6f6faefac4646d49c69c369f25156a4b13c5a1fc192b696a0cf1fed444d050d0, 0x65ad8ac1be3f446b18b83541c70cf5639d6b8f1ce85471c13629f90f2c3c9896, 0x33a4ac24e4741f107d8dcb8868bed9a31af47814313f9d18e30fb6e872a21d36, 0x3d53679e230d3928efe5e9f4ccbc3b5591db4c2a7259e833d7db6522ed9d6fc, 0xc1f8895bc7a8b26eb1d820ac978bb89afe99d6093c1aa88a0c92c1f5916af2c, 0x31318f321e0d9ca5b5b424f8e8b8e49fa3a525bdf16a53353980e906a1b220a7, 0x59d67303bc026c5e471b97cc712aaba93aeebe4c1a4354dcbb82d0cac212f27d, 0x481a8f1d034bcc8b9dbf4ce100dd9944bec05e3a4438d8a3d93f856aee7c91b2, 0x3824afba74120db766f9ceb6c55ccafe85b6f32f157a22085760349e84855907, 0x35dfacf065bd4ab6dd922314d48f2356373e23a07a49d08b71a0963fda7fc96b, 0x71a907547b9675595e5e7ecc11f0cb6f742621277d0d4338486b008408c6be1, 0x606863f77b6214718bf1525e368dd8c3176bd9a6a640aee5aec67aba650226ea, 0x4fd5b9988f6b3b83a6909922d629eb6b602ad365443f3d4e0f7620ae0d6827e6, 0xaa9aaeb76d1933c1990fdcfd654749d95e57118e2a084fca99f663b9355ff0b, 0x159083112e0ff191df9016560dc9f037fff7954ea80355bf09be6bf228114cea, 0x3d2d27d380819f73e27f7058667768496144319e9a62cf8bd271b91579b98669, 0x3cb51c41153c378e25d07fdd8fdced6ecae40f8d7eded41b65a63993134a3a35, 0x3b03d1f63c93f107a5eff9e2ef6a1ff7e91f8267a5f7b99ef4980ec173f24d48, 0x1988c021fd37f3427456960fd84cb2e8b69727135deebcad5ae4a69dd1f72933, 0x2c14f416a63d78713b8bc4bfe0dc3e69cf18a7c0d52a50b8e37d5d2ec238c640, 0x6a1ff64849eb06884a0c8f522507aca747b0fb1891a756c27c7a1ddeb5e63a29, 0x40852fa840516fc5c143c13a4dc556c9892db76483a35c0acda80fbdaefd5f19, 0x552e3c330d2efaa8de29a292e249dd4498d902a0ff2ea6cc96e0f163a336370, 0x3898801a72cf08bd3b236a7f2c9144cfb56c042f86e96aae4c256b8a2d8d18e4, 0x25ac8c0a240de3717eb2df0adcdce25ef1b88d8b0e4937889c3afcd151cc57e2, 0x5814a1990b117293d8bffb79790316b799ec3edec6747eebcef975fbdc23a50a, 0xbd1bacbdd75977f0ccca8f8c46919c562c40aec47cffa1f28a35199e4c1745c, 0x295c66b39977c3d9cc0ae96391419e0f66a478d4129d4cad5c1645da28b26bd4, 0x400384c6b2f5f999534522bbd04fec82532b88ed6f4bbd40d3a98d5450eef56a, 0x1e19d7dd91c9f211148b5d4f580c52d994c6948938266b4f73370f62ee7386b5, 0x533bcfffc3bbe595f6585acb68671e4faffe2eb7ea9265f5d97fdcf6dccce9cb, 0x2a76daac31286fb1514190a47271be5225357f301d8bc8369bdd4e43b630f9d8, 0x46d59b394cf19e41127c2647ba03a45eb9b4db13a8e1a1457a99014cc5bd4d10, 0xca9c15d60714e138a817327938d21b84dcd84c148a3ac4f5e6abedf8dbe71ec, 0x50f0bca7634063fbbdd51516c717f18950062834f51fdb173a62da804050b062, 0x1c580c0a52b924dc32b980e8ed6579afe1561510758b42fbdb9ce48835795eee, 0x19ddbd0225d9e7c87c92ed1d56f28e10b8eb9d2f10efd0cdb562725699b2ce8b, 0x5a0cea66b5a6a5b9afe70b76e3ce39c34a5fb8fe7bd77997a56b83ff89a769d6, 0x5ed1d642d416c2ca0e85b8ff2b4100edada36f382b9620f4748fb94623c53b8f, 0x7202b37959d09c83b9913d6654e342640d2c393a20ee491fd79f0977951ee6ee, 0x727830872b6c2312c1f4e7d2a8bb223cfc5c7e2b64816af30d26214f0072e0cb, 0x3ec128d64068efa18f3a500df65c85cede50df5fe8308930d5420082bcf30da2, 0x20c28bf5fd98e55c3846fa321bd69480653bf4bed9bdf69b81e4dc6fc485bbf8, 0x4c2da3a252918646d292750d7e4b613e50eccf12232d1c10baeaa4fe6e71b226, 0x1f42021fc8b9cd9b894ec824a723930c3338d8c16a3e659dee9e03f50ce9e81f, 0x40db5c954905dca9bccd335e24f7195ace69fa9bc8be00e4efb452c78513b80f, 0x1448f8c3179202a88608f341a6bd0624612a104924c66899e95e043cea888e99, 0x3e42795c59fe033d598bc358d2671420dc043257c432c6d897ce09c2cf352483, 0x1a0558743d31846aa1218add25f763f0fbaf1a1627fb72f4fdb8e83d4a986f16, 0x273f99ab8d4d02c7575fb4dfa4fd829b338a403e43cd26cdf3be87ab3000dc1b, 0x3c4c3b051748a10b3c6077b0dbb2924f3d023356204b3ab5c64292d456faceb2, 0x69d13312b5ecfd4d1ecf946ab1af20922810fba9432546667bf27d80b3c35ff3, 0x6fa8c66d04e66dba01f9e0129a4ce0c513330fc783bca60f1e75a489dea4b1ab, 0x3483785b6aa053be68d99e0951d3935d9867afb5fe2c9334922aeddb785007c, 0x45236039656acb729c65647b494348d42c10f747de9c82f52a802b523a86559c, 0x59875862daf39e15709f44b5e9c83f3bd2448747225fa94e0cfb27be44fe39cd, 0x65803c0532adb706846509f2be68b883ff57343b8f345a94954c5a7a46ed62f, 0x61106f139e0d2e036574deee8ea2dc8aec9469c5c5432e97e124f564a8b7cbf0, 0x490e3976e7bccf87716e5b0a94d9cfa1b36e994bc5c93855cee88ab2eaa82a1f, 0x68bca32c4f9d11f767fbad9dafecf2cdfaf137f3612582f58b893647981aca77, 0x1bf304a087195603c6dd49782fb94a186bf1dda17c00ad778280788cb1805ae2, 0x282bc5861c1822f2cad80f0f6eec1ef78f2e64da13cb5fb3d25b9843b52476e1, 0x16d7118fa321bd801fade7bed8dd97070087c5147e9d3e116e25c4f00e1e1f40, 0x2a5b0b4ee1bfa9ba3d2ea4d9d0ba2bdb97a1f8fe473dd9cd688462aa4ba5d2b0, 0xbddea87be079e19efd536772e69cb53f4a03b086e8d6e220300cadeca4beabf, 0x714a94ee6676f740de0497d7e52ba43a33596b3c0cd4df0b20767e5a49720e47, 0xc53b2c9f7a14ececd01041f452bc6138c44424808c8e949841134e11819758a, 0x9c0102011f654a175911bca45c86976d6fcc318b7ae76c1e3ded760518f611f, 0x471663a39f64a3d67f1d6d4b8fa8f2710e63e04ff7a40ec636de3cf732e8ace1, 0x2d9d673c28d7e5867430e0371cee622f9ccced259c2fa6294a71d1c04ae3686a, 0x69f6c979c2bca47022722c642ce47333bed64d3b196457760bd0317cdc10d1f0, 0x53f976726dfbdf25dcb814969f01093592fed01b3d87ed43b13bc28617b978e0, 0x27f4729d2c268e25983ab283ecf7337084e8012584be3edcf27c6c2b8996ad07, 0x6dbb70c626c07f8a5d00ecff3b1b0eaab3f8c4638a27979e587581126b03336f, 0x5676d8a773cd318b09b2afe2be83fb1c4fbd3ab14629f19d100b1f310bb265, 0x2aedcf74c2e3bb6eba40681a65f592d5522a8bf3adecaf55d65bd92605ee38bf, 0x62b0e5255a3bba1896ba23e4ef2515881c6b3fac637b2042eb78f83f4cc66c3c, 0x3791b9efb35f4bbbc4dd01fa6163b49a24bcf326a6265f0deefb1ac9b2527537, 0x5ee5e6e3cefbc074c63ebaa983d993d66cc34817f3c4469fa51d285819b0392f, 0x4dd7d152bbd20a0a242ff70fb28f119230f975e6d9fa601689aa9efdaaf55b6a, 0x45c7704b50cd49c4a3d3a90cf48481f1a118b36f6f549f2bb6d70641fd13ca3a, 0x58a30ceed100544abea3d93d94841fa9c0d6ac4cebb5a9a072e49eea3d606f79, 0x3847f7b5109b01c37e280996928899da97d1aa6e8801e89b9ffce727070829c8, 0x605d3bdb9edc409851b322b8912ba93f86c906c8a397288e626bce513cb3f4ab, 0x4b7df081fd6ff9225da4d88e3741414e1239dd87b44ac459da26addd0a53cff1, 0x6766d0ff9a0bae40a5ac994655e644bdd3c5956c9fde18e213b8e87645c57b7a, 0x425cdc3b3ad5d897d9037190045dec7d8a4db7d1adc7727fd10f2a4e5fc7d166, 0x2e738ce46087b1f6723e01c8bc8b77722d5e00ddea334cd6ed142725f7f3c62c, 0x1cf2c38937517dfc2c51fb0aa92b6cffe2d30ffc5250cab3d7c6a6d1127f6666, 0xa56ffb62b8df27da65338af0d354a5c295aac25e7f8fbbd143faff13da9c748, 0x1204142f9ce0dcba00fa919fb69a5756ea6a731057dbbaacaa7fef3368afc226, 0x21053376cb5a1efa559dfa6bf6e5b54ab2f6494f983271dd112b891b4ff50a04, 0x31754013e55f3c1c7ec3d5e456f2685c9578811d4b55f948acc4c4373643d8d8, 0x470751fa85a3cc494d70b26896d87070ddc1652340482b3b0970e49efef0dd17, 0x5f6d47af2a7ce45f8f251fdc71c3b35be15b599cee79f3f965afbdee2a708d7e, 0x4319f7c90b193b91d3f4d396b1b2bfe72c2d6bbd38822e075396695c87723c0, 0x657f5ed80f45dd891389c94524b1bfdba5d321bd990c800b18afb42967c049a9, 0x6e1b2acb150dd1c81e1edbe0651e80dd5b5ef53a99b597aec7563d21bed99a35, 0x5a850a847cb89114afc536d9ec37e87de8902449df6994a759742df594594415, 0xcbd2d789bf9b7582ee54bb3f34b80b040956fe3309295a98eb51d2dbfd3e522, 0x240695c0c8e863dd0c2d1012e3832fb774f5fd0c1a0ecf4a7f4ac5b3c2bbecdc, 0xae47e6f2d847ff10b5b7cacb571cb302f1caf9a581b7719a0ee2ced13d75efe, 0x3622fc59527db725baa4c0a521b18904b04848579dc8ed32adf275c9ee72b11b, 0x2a4cf9ae09cb2e5d0f950db7f1fc13e8275b55ae02f87042f9cfe4fc6bf949a0, 0x11a65e476915d6ed1433c5b2e57e4f504ac5e6a7f83a14252c2847ea4fd157a, 0x4e13a752a2a1421f9c215e9ec5a85bbe97fb33ef03edca6b4b0f852d8e6f812, 0x3cd3eee6138375a030e15fa7c74d3b5a25b66b8754e52f92f5e1204c89b97f9e, 0x23c0257c5641da348dcd88bd53451d8c3edef3bc5c452d28294e707f1eb9842c, 0x25b022f0f0d39a723828a8b3242b31eb304bbc0272a493077a1a1b22ba3ca2f3, 0x1a72ac0650854467399c5d6f9b44d53d1ef696f4ce85c3b6825193b351a487, 0x411c84177688f90337e5d9b4d696ceedd3e0d53c6811960652bc1a66a02ec9b, 0x3d1b82965d1cce661b24d6017fe37f81026bb91bffa8263083899b8adbe2b058, 0x5401e51ccffe28e15209e94cc6eefcb314aaf5170515a315cf757fa2058d3953, 0x4e6c5349af851babf23b8b26638bdf3804fca96463224160e1b386612919eaa1, 0x593cc12f9b763a8baf06f91b6175d61bbf5e25e09b0e73e28f6c908fb70ad33f, 0x1a78ba425e3da46643d4db371787772b1f4f03e503aab3a038470f21d33a3ecb, 0x40ab3b7c2643f1b01fedf36c5acc374dd9da885a2579baa4235d9c6b19899515, 0xaae9e6d7dadddfc3b395daac00ac448498f6af585d209f19f805413216a83df, 0x6faabadcd0b7db0467922ea8905f18476e6f5c821516f75606b3832cc34410de, 0x384847dc71aff5cc9a3c64703031c1065753a4147f59593bb9adb258c3798511, 0x5109e1f2a468d106af2038c0240df9dd22470942c1f0abc295f636ee2b3996c7, 0x2243f66da211988c106605aa1710118984fa86e6021f55d5368344b843a2f53e, 0x6be595a4d1faed8ce7a0a61ab2a73dbe685883c1bd5cfeed658d33926d778241, 0x468a8d70d64bab6e97d3dfbcb49696c619c0c165098425f0e94f1543cdabc7a9, 0x13e1b6098b0793cfd147c0e583295b9abe40a8a2415db3ed9c25192f0edf2e06, 0x7297366f5b34ab6141e96b997b92f70becca4579561aabb597bc41b942510e3a, 0x2ce73ae32d67c1efcdee2e4d4223eed58c742ce15601638c7c0b17c52223d55b, 0x729e5dd5a63d19a21184fa009a4461520a7212cad17d14a38ff86f6b57cabf44, 0x4a47d1b7aede724b0706d3833381f03a7ff76b7fd3a5d4bab38b62d8530d4f90, 0x283f0c2189cc4879de7166929a888056ad45c5f632f4f0680f76a230efc93a75, 0x55c6af9f505f3fa11a103e2b014cffa9f4098ebfbb72a315455606de2518b9a0, 0xafafd1fb97562c7f91e286b1ddfece508947f19c407837e13bdaaa7cc33808d, 0xa4a56343ca116bfb2f7a731f2aba94f9faa2a85d0b19a32b7b94763021760fb, 0xc242afc31133ec77c3e7bdc151a82fd034e5f947ab468d8c9136562b0654f72, 0x4af3b0444f35b35140196e7b43dd066618793bc78ce84220bd93f36dbd73d300, 0x64e23af88f673d9bf3aee04a93d42c9e616cb1472506500d48831a7c75ac7bcd, 0x6224da607d18a816cd559be353345b4d9f8e416aa04e10fcb6e2f391e5fa3dd9, 0xbf5e185735653afae0c694a23ad5cbe6d2163cd12104927324cb3a991567361, 0x3dd28d4bde0a592ea0778299876485f1e33bdce972f6101bd11a88dd2b31658c, 0x2c246c4a2e620c8d9d9b0d82ae0f703d74e43c258a42e16aa3250b15f58a8360, 0x57355fc7b3468e4ae3b08ef930797a042790fde8db17a99670c0fe4da2fe3a55, 0x3d75feff857c36de5c6199f96d9cf71a7e2d8f34fc84b1aea599ed1b7191ca07, 0x61733711c0337c9bb90b42372f0fb87047c4b2916a276668381108f3bf2635e0, 0x2bea967e100cd389c66bbb2493e56bd6778aec25baf043e53db42cef8ddfdf5a, 0x3f4413cd385db8c97332997717417de7633fe93ad85fc3e9ab8e16b834aa7765, 0x2b0f38b01b01c88b922090dbb5a6fa1a2a53cd7bed1705bff59a91d615ca6f8, 0x297bd06cdebf1d2cecdd48eacaa3835ebb41bd6c80bca4075a9636f676e6b9ff, 0x730e3db658387ad162b0f4a5348e77b3f79f6a104cd54a35129d15686f7e0554, 0x15d7a1279d09e301a4b1c60ae16377e53f797df534172c9cec4707ae22dc78b, 0x55612aed76a3e66e57f34729fb9d3787236d56751f11de4b3eba1376bda80953, 0x1ba0f22f542921902c6a741dbad08de5f2707c44071ec9aaae06d48fa9fad938, 0xc731eca2eea18dc95c03fd03cd6f17323710fc011501061bb057302814c0bb6, 0x5c6382400c56e0dcebdf8d5d2deaf6f215ad448a41babb011dd8344765e66da9, 0x35cb49fb9ea9b45950a27debb225463ace1bcae1df501bb939ac526473f4cbac, 0x46a0052daacdb75115402cf0432fd6650c24acef6e8fda1f8162123076cf8105, 0x4ea7cb868699e6550276fccf49a57b23a1b909e38d8ab8c3cd10cad2b62e513d, 0x1bcfc05a8c52ace4ff92a5f2557b43cbe3181635049d79a43dc27fb10a1b2cc3, 0x3baec1974d191fdaa769b509ad7c53b4f6d1c6d4244416fa3d90a09eaf06f1a0, 0x6ac388c05971d76f02d333d810dfa9bc83c0ba3fdf398f0272ecb6d1139b62f1, 0x186819d18c55583868ff5b6377af622dd30206868dc995b6cc583ab10cb40b9b, 0x4b9df98c26e29c98dddb8936fbc75270e1a9b8fb3f152b7b6f6ca184ea5e678c, 0xd96369a6c30228931b4dadc8ed6fd3f4dd5935671c7941233edba8795ab77ee, 0xc5ca6788e546902f21daddba2c4bfced3b441ac0edc10fba93a7a65b4c4333d, 0x23e2985b76333abf0a72bbd2caa7058be53a598203e3dfccbdf0cb8d1038ff9f, 0x91b99abc1c66eb141e594b735dd9f2aaadd7067c0474300e0aba99cbea9ff44, 0x1b0125564d3beff57bec24bedfe6571f6253089839330202a702e5b5708d4379, 0x4a098142a5db3f462078aaea9a243fe3d1bac2eddc8da9fee55b16e659a45f15, 0x4581071985fb1e1a864795732c04243f635178084c17a9458847b657a729eb2f, 0x4d32a6b4449fec51153d9ec04834ec3bb5a149111b024257b0971b472eb2742c, 0x6aa5c9c9d5f4e19fe22a741526f1e50672dcd185858ce2bc8a35db572c082d5f, 0x21891089c810a20a4e955a23cd9ad9d7677bc2051ae6b3db01a5f8ecacfad9d0, 0x4ac14ea57d47e8e20082dc06426a249e0965e7e03336b91b29333d42dbffec1b, 0x34576fe0d3f80b09305c3476e37321bf96a25a2ccf8673811d07a9045eeb708d, 0xd3d8cc45c7892d7b60b8d48bf9beade854000b2273e7b56395daffd2ca7593d, 0x1171f14b2d51830047ce64be338dc4521313a1c04f41331fa8076aa38fd56738, 0x1aef9598678b674b2ca79784a7190df95392c76cb9c0fed08c105f0599b39878, 0x5005baa5bcd238fc679f83bcab69334b37cfee3d1937e0703d7364700a060ff4, 0xd87e1282d8d6b605a10ac10b428850c15e95dd33f5b925fd000c038a5902b37, 0x18247bea3047f73406dbda0deb04fce7b5fd70589e4e14032bc7c39d844e36c0, 0x8b2e676536adbcd631b158aa41308cfc7dc8ecd5abe9efb8025443b413d0862, 0x37e19b87ae185c06edbf5b011bf41b9ac90bdf94748f5543b60f175e84ea864a, 0x4905234c6be8498b30ec4a0d951515798aa50a4cde93c29b367c74d1fadc30d1, 0x1b53b61d773b2588c4acd57ebfc89a34a0a56ee6e7604d12db5008264594fdd9, 0xd76091c416911aa36b9f69060ddb3f82dfcb6906009f7fcfb0daa03b8208523, 0xa21126729ba7f2ce6456883b855ef0048c941049a14ecb2752feaa877649909, 0x3c3ba3b089c469c4d3abce417d8206c2de48518259bb6713e1f8e472d15b0c72, 0x51e3bb58e011bc7484f091eecebaf8d8bfcd637f54aea95f248725fb8bbe1d9d, 0x6d92204d6cffa59a5510bf42a300b6723433954e8341b28a76e79890d7ac07a8, 0x3a2dbd1fb9583a17cf7524347aad3e08392a55ac5395383ce9f8122018a2ba38, 0x174a90162490f149cca5c52b8b885011b47991872d10af5a4da5938226b69472, 0x203ac4a3f9d18f92c80527a519a19b31b16509e73cf97e43ffde2fabc2e9d245, 0x5d21daa40781030cace022271c704596e1c98176ce855b8b363f74e36b5c078e, 0x237074bf71c808d206d786660b77d8e6532f2de335d4071541ac3953e3fea984, 0x2feceb4d3098ebba4afe872c99f52d73e20e7338a536b2e4826f325b120685ba, 0x53d484f75c5c95159a5b0c26d86c4bf7aeaefe816533270199ffeebfe1c7eef1, 0x382de3a8d78b5c4a1fd1c578b1a42c4b58bd04d0778858d7d3abdabd9d3a5792, 0x2a8b45648c502b336e2bb5bd30a959648d09ee19a4fc2a7ffad06df64189469b, 0x1f4631200cf902322d8cecd8ed8cd6bdcd3e13d22bc1c75698b946d1983bf268, 0x1b2f82c9b49e9aa2f5ab8be97457a1143d84935ecc77fafb5445d355c53c2769, 0x2674694384b41b5639ffd14164cbccbdc8303afd4d208d3c8d123d6e1c12d7e7, 0x65e85b0795a4bbe99f82cc591ff5fed3b2565bcc141d64a6cd8f5782e39fede4, 0x4903affa7974f82799b5f55efabc096bfcf6437e9e2635df298e56c90f34d05e, 0x628ad2feca23122703e2574ace49f3999c3c0b4d46c43fda5f74560c64f2dd3c, 0x6ca89c4731db664ad5183d91fa8f11314dc0e4b3ac562c8713e7e63c785610f1, 0x16411a50d3256a6b4b08539465b3abafc7a753e4e98692795ea86d1e1b0f6f1a, 0x2b6cdb9252d1f9766b8a05948a6fb497a1a439996982f1094233de5b9d0771a4, 0x61f5caa2228a78f9f56b93d5b7cce948b6046b7d4a797c3c52e07a4401e3edf, 0x66c2c354f137c46f29be5ab47a4c68118cc67d8368d068acee8fb36f2f996c87, 0x41ec3500763bfba608f53d8f458d57db713ef4a56b93f9f08fb5977b525bdd5b, 0x38944fded0153a5853bed16032a467da45aed406582227a7da38073a7a728e7a, 0x545d6bf1df368ee4f80bf9be336ed763afa412b98a7da6a2a8ad7571f489da30, 0x18782101e92b640c1f3e2ac28c9cb408db6d0fc39c84832ef0a338ec48c4a20c, 0x3ba294fec33a36ce5f4cee4e2f64c4dedae0a6e910059478db29aaca6fa7b80, 0x1792778db3af9e3d94c4b2453b8b932e1074a0f1a6bf4ad426cfbb1494dafaa4, 0x282ac7102d3b38681b1b26c77fcb7de7e576b5352d24ffbc6174c8b7e46a972a, 0x722ce05007bade0ee54a46cf10911cf245ce6e9f79e98ed3af300a6e918db66b, 0x565680602280e15038d87ab2f6a0977ea66c2652445695b713bbfe6cfa39b5b0, 0x705285efdc4c08bb7cd1be013e6cb6a5088a158068df0d6d77a649e636d7840a, 0x6e8f61e4abc8099344a43ea925c5130e18e912a3120bd07abaf602e7f51b113c, 0x25f0ceb86f310eaad0959e9e43c5c4de113c7683bf2a4b12d145197b0d79c3d0],
    M = [0x656ff268c469cd9f2cd29d07086d9d04a945ef829ffe907f1fffffff20000001, 0x19c308bd25b13848eef068e557794c72f62a247271c6bf1c38e38e38aaaaaaab, 0x22c74bcc2615a595a8f7c0cf3616f401991f4acdb332b532e66666661999999a, 0x6963af62e003892a5d1d50074e93217934daf23145cff68aba2e8ba200000001, 0x6a44840c3b7b082cd99fb0b208d45b5a376dd6581553d4546aaaaaa9c0000001, 0x6217dc5a0f85429f8dce7bb808267bb5bd02ed3d9d88753a3b13b13a3b13b13c, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x19c308bd25b13848eef068e557794c72f62a247271c6bf1c38e38e38aaaaaaab, 0x22c74bcc2615a595a8f7c0cf3616f401991f4acdb332b532e66666661999999a, 0x6963af62e003892a5d1d50074e93217934daf23145cff68aba2e8ba200000001, 0x6a44840c3b7b082cd99fb0b208d45b5a376dd6581553d4546aaaaaa9c0000001, 0x6217dc5a0f85429f8dce7bb808267bb5bd02ed3d9d88753a3b13b13a3b13b13c, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x22c74bcc2615a595a8f7c0cf3616f401991f4acdb332b532e66666661999999a, 0x6963af62e003892a5d1d50074e93217934daf23145cff68aba2e8ba200000001, 0x6a44840c3b7b082cd99fb0b208d45b5a376dd6581553d4546aaaaaa9c0000001, 0x6217dc5a0f85429f8dce7bb808267bb5bd02ed3d9d88753a3b13b13a3b13b13c, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x6963af62e003892a5d1d50074e93217934daf23145cff68aba2e8ba200000001, 0x6a44840c3b7b082cd99fb0b208d45b5a376dd6581553d4546aaaaaa9c0000001, 0x6217dc5a0f85429f8dce7bb808267bb5bd02ed3d9d88753a3b13b13a3b13b13c, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6a44840c3b7b082cd99fb0b208d45b5a376dd6581553d4546aaaaaa9c0000001, 0x6217dc5a0f85429f8dce7bb808267bb5bd02ed3d9d88753a3b13b13a3b13b13c, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x6217dc5a0f85429f8dce7bb808267bb5bd02ed3d9d88753a3b13b13a3b13b13c, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001]).* from "../poseidon"
}
