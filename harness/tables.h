// Butcher tables: taken from the pinned commit, their order conditions verified by c14_order.cpp.
{ "rkck", 0, 1, {
{ },
{ 0x1.999999999999ap-3, },
{ 0x1.3333333333333p-4, 0x1.ccccccccccccdp-3, },
{ 0x1.3333333333333p-2, -0x1.ccccccccccccdp-1, 0x1.3333333333333p+0, },
{ -0x1.a12f684bda12fp-3, 0x1.4p+1, -0x1.4bda12f684bdap+1, 0x1.4bda12f684bdap+0, },
{ 0x1.e3425ed097b42p-6, 0x1.5ep-2, 0x1.54bda12f684bep-5, 0x1.99f425ed097b4p-2, 0x1.fap-5, },
}, { 0x1.90ee643b990eep-4, 0x0p+0, 0x1.9c3d02e2bb28p-2, 0x1.aef9f76166929p-3, 0x0p+0, 0x1.280a685dab4bp-2, },
{ 0x1.a284bda12f685p-4, 0x0p+0, 0x1.891f2747c9d1fp-2, 0x1.f4ed097b425edp-3, 0x1.3c92492492492p-6, 0x1p-2, },
{ 0x0p+0, 0x1.999999999999ap-3, 0x1.3333333333333p-2, 0x1.3333333333333p-1, 0x1p+0, 0x1.cp-1, } },
{ "rkdp", 0, 1, {
{ },
{ 0x1.999999999999ap-3, },
{ 0x1.3333333333333p-4, 0x1.ccccccccccccdp-3, },
{ 0x1.f49f49f49f49fp-1, -0x1.ddddddddddddep+1, 0x1.c71c71c71c71cp+1, },
{ 0x1.79eec0fc37181p+1, -0x1.7310bd29520e4p+3, 0x1.3a552363c529p+3, -0x1.29c9eba1e3345p-2, },
{ 0x1.6c52bf5a814bp+1, -0x1.583e0f83e0f84p+3, 0x1.1d016a3721e8bp+3, 0x1.1d1745d1745d1p-2, -0x1.1818970d9cc2fp-2, },
{ 0x1.7555555555555p-4, 0x0p+0, 0x1.cc0499a5605fbp-2, 0x1.4d55555555555p-1, -0x1.4a1cfb2b78c13p-2, 0x1.0c30c30c30c31p-3, },
}, { 0x1.7555555555555p-4, 0x0p+0, 0x1.cc0499a5605fbp-2, 0x1.4d55555555555p-1, -0x1.4a1cfb2b78c13p-2, 0x1.0c30c30c30c31p-3, 0x0p+0, },
{ 0x1.7048d159e26afp-4, 0x0p+0, 0x1.d05f703aa30fap-2, 0x1.3a66666666666p-1, -0x1.16075785e4908p-2, 0x1.6cbd323989ffp-4, 0x1.999999999999ap-6, },
{ 0x0p+0, 0x1.999999999999ap-3, 0x1.3333333333333p-2, 0x1.999999999999ap-1, 0x1.c71c71c71c71cp-1, 0x1p+0, 0x1p+0, } },
{ "rkdverk", 0, 1, {
{ },
{ 0x1.5555555555555p-3, },
{ 0x1.b4e81b4e81b4fp-5, 0x1.b4e81b4e81b4fp-3, },
{ 0x1.aaaaaaaaaaaabp-1, -0x1.5555555555555p+1, 0x1.4p+1, },
{ -0x1.4ap+1, 0x1.2555555555555p+3, -0x1.a9p+2, 0x1.c555555555555p-1, },
{ 0x1.3333333333333p+1, -0x1p+3, 0x1.a3de8933de893p+2, -0x1.38e38e38e38e4p-2, 0x1.6161616161616p-2, },
{ -0x1.1a0b321b94696p-1, 0x1.a740da740da74p+0, -0x1.e424242424242p-1, -0x1.4bc6a7ef9db23p-2, 0x1.decc5dc638e91p-3, 0x0p+0, },
{ 0x1.048a1ef548a1fp+1, -0x1.be82fa0be82fap+2, 0x1.697bc7305e02cp+2, -0x1.195b81dfce9bbp-3, 0x1.252c6bd6be27p-2, 0x0p+0, 0x1.2747164f0dcbbp-3, },
}, { 0x1.3333333333333p-4, 0x0p+0, 0x1.8f497803a68f5p-2, 0x1.471c71c71c71cp-2, 0x1.148efe4c35f33p-3, 0x0p+0, 0x1.6158dde6e99p-7, 0x1.1dec0d4c77b03p-4, },
{ 0x1.4cccccccccccdp-4, 0x0p+0, 0x1.966ac7df24f67p-2, 0x1.4p-2, 0x1.2121212121212p-3, 0x1.1745d1745d174p-4, 0x0p+0, 0x0p+0, },
{ 0x0p+0, 0x1.5555555555555p-3, 0x1.1111111111111p-2, 0x1.5555555555555p-1, 0x1.aaaaaaaaaaaabp-1, 0x1p+0, 0x1.1111111111111p-4, 0x1p+0, } },
{ "rkf", 0, 1, {
{ },
{ 0x1.2f684bda12f68p-4, },
{ 0x1.c71c71c71c71cp-6, 0x1.5555555555555p-4, },
{ 0x1.5555555555555p-5, 0x0p+0, 0x1p-3, },
{ 0x1.aaaaaaaaaaaabp-2, 0x0p+0, -0x1.9p+0, 0x1.9p+0, },
{ 0x1.999999999999ap-5, 0x0p+0, 0x0p+0, 0x1p-2, 0x1.999999999999ap-3, },
{ -0x1.da12f684bda13p-3, 0x0p+0, 0x0p+0, 0x1.284bda12f684cp+0, -0x1.3425ed097b426p+1, 0x1.284bda12f684cp+1, },
{ 0x1.a740da740da74p-4, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.159e26af37c05p-2, -0x1.c71c71c71c71cp-3, 0x1.d950c83fb72eap-7, },
{ 0x1p+1, 0x0p+0, 0x0p+0, -0x1.1aaaaaaaaaaabp+3, 0x1.f49f49f49f49fp+3, -0x1.7c71c71c71c72p+3, 0x1.7d27d27d27d28p-1, 0x1.8p+1, },
{ -0x1.af684bda12f68p-1, 0x0p+0, 0x0p+0, 0x1.b425ed097b426p-3, -0x1.ceb240795ceb2p+2, 0x1.7097b425ed098p+2, -0x1.4444444444444p-2, 0x1.6aaaaaaaaaaabp+1, -0x1.5555555555555p-4, },
{ 0x1.29959a9959a99p-1, 0x0p+0, 0x0p+0, -0x1.0a2576a2576a2p+1, 0x1.18b9d18b9d18cp+2, -0x1.d5da895da895ep+1, 0x1.0a5d68a5d68a6p-1, 0x1.18f9c18f9c19p-1, 0x1.18f9c18f9c19p-2, 0x1.c18f9c18f9c19p-2, },
{ 0x1.df881df881df9p-7, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.2bb512bb512bbp-3, -0x1.df881df881df9p-7, -0x1.2bb512bb512bbp-4, 0x1.2bb512bb512bbp-4, 0x1.2bb512bb512bbp-3, 0x0p+0, },
{ -0x1.bbd10bbd10bbdp-2, 0x0p+0, 0x0p+0, -0x1.0a2576a2576a2p+1, 0x1.18b9d18b9d18cp+2, -0x1.c31f3831f3832p+1, 0x1.11db891db891ep-1, 0x1.3e7063e7063e7p-1, 0x1.9c18f9c18f9c2p-3, 0x1.2bb512bb512bbp-2, 0x0p+0, 0x1p+0, },
}, { 0x1.8fd8fd8fd8fd9p-5, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.4b94b94b94b95p-2, 0x1.075075075075p-2, 0x1.075075075075p-2, 0x1.075075075075p-5, 0x1.075075075075p-5, 0x1.8fd8fd8fd8fd9p-5, 0x0p+0, 0x0p+0, },
{ 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.4b94b94b94b95p-2, 0x1.075075075075p-2, 0x1.075075075075p-2, 0x1.075075075075p-5, 0x1.075075075075p-5, 0x0p+0, 0x1.8fd8fd8fd8fd9p-5, 0x1.8fd8fd8fd8fd9p-5, },
{ 0x0p+0, 0x1.2f684bda12f68p-4, 0x1.c71c71c71c71cp-4, 0x1.5555555555555p-3, 0x1.aaaaaaaaaaaabp-2, 0x1p-1, 0x1.aaaaaaaaaaaabp-1, 0x1.5555555555555p-3, 0x1.5555555555555p-1, 0x1.5555555555555p-2, 0x1p+0, 0x0p+0, 0x1p+0, } },
{ "rkfeagin10", 0, 1, {
{ },
{ 0x1.999999999999ap-4, },
{ -0x1.d49205b25860dp-1, 0x1.745c5dd843396p+0, },
{ 0x1.9e3a10fd451bp-3, 0x0p+0, 0x1.36ab8cbdf3d44p-1, },
{ 0x1.78e1f31aa2848p-3, 0x0p+0, 0x1.956fa24e8222bp-3, -0x1.2ad2a2e820765p-4, },
{ 0x1.680a999e9c521p-4, 0x0p+0, 0x0p+0, 0x1.a44f8c5a9a04ap-2, 0x1.ee4c83a585412p-2, },
{ 0x1.602221b4a83ecp-4, 0x0p+0, 0x0p+0, 0x1.52d3c517dc891p-2, 0x1.f56a34ced3b1cp-2, -0x1.2bc4b3fa13d49p-4, },
{ 0x1.ef54c44157a7bp-4, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.0a5e1f7d0ed4dp-2, 0x1.0a91e03846761p-5, -0x1.e8102a9126847p-5, },
{ 0x1.c60f3deea88eap-4, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.f03d6443f0e01p-5, 0x1.497c6cc265cbdp-2, 0x1.055e62911f77cp-1, },
{ 0x1.caf991ebc6ccep-4, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.28d7c2125aa82p-3, -0x1.5544a8410fe6ep-2, 0x1.ff406ed36237fp-2, 0x1.04ddc9c1074e9p-1, },
{ 0x1.d2d951fa122b8p-4, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.3ae7ec9991e19p-4, 0x1.ea8d5218b9462p-3, 0x1.97523db83191fp-2, 0x1.6072fe1bb30e4p-7, -0x1.4fa2b593b12d5p-2, },
{ 0x1.46fd58716a8a7p-4, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.aa410b596dc89p-5, -0x1.d8a40ddd12dbep-5, 0x1.8ee9d22eaf8bdp-3, 0x1.29bf921367128p-3, -0x1.40b17e58f6971p-4, -0x1.d5016960a3e97p-4, },
{ 0x1.f86112c0dfd1cp-1, 0x0p+0, 0x0p+0, 0x1.52d3c517dc891p-2, 0x1.f56a34ced3b1cp-2, -0x1.6103d768b8f9dp+0, -0x1.b8ea836c427d2p-1, 0x1.7231c6de17df7p+2, 0x1.a4dfba39fc1fcp+1, -0x1.31738eda757d5p+1, -0x1.a09d122974448p+1, -0x1.14eb73a53851cp+1, },
{ 0x1.ca47f6eb442eep-1, 0x0p+0, 0x1.956fa24e8222bp-3, -0x1.2ad2a2e820765p-4, 0x0p+0, -0x1.b3d53c850963fp-1, 0x1.97e13a3efd143p-2, 0x1.d1d6f65fca9d6p+1, 0x1.8c58b87f9646p+0, -0x1.0fa4cfbcc657p+1, -0x1.956084669b7fdp+0, -0x1.b7329d985f62p+0, -0x1.8fd4498b12bbbp-6, },
{ -0x1.d49205b25860dp-1, 0x1.745c5dd843396p+0, 0x0p+0, 0x0p+0, -0x1.8dfeace31241ap-1, 0x0p+0, -0x1.751a553e70893p-4, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.751a553e70893p-4, 0x1.8dfeace31241ap-1, },
{ 0x1.999999999999ap-4, 0x0p+0, -0x1.41e6e369e9549p-3, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.41e6e369e9549p-3, },
{ 0x1.7449c12c4000ap-3, 0x1.599999999999ap-1, 0x1.5efbfebbec5c4p-2, 0x0p+0, 0x1.095473420c2bcp-2, -0x1.6ee0ae7397d5dp-2, -0x1.0bc34f9df2383p+0, 0x1.dc53ee6d3c8ccp-1, 0x1.c78df0d682955p+0, 0x1.999999999999ap-4, -0x1.2154266af01b9p-2, -0x1.464d6af0fd2e7p-3, -0x1.2a043cc474d83p-3, -0x1.095473420c2bcp-2, -0x1.5efbfebbec5c4p-2, -0x1.599999999999ap-1, },
}, { 0x1.1111111111111p-5, 0x1.c71c71c71c71cp-6, 0x1.1111111111111p-5, 0x0p+0, 0x1.999999999999ap-5, 0x0p+0, 0x1.47ae147ae147bp-5, 0x0p+0, 0x1.838ef05e9dfc2p-3, 0x1.1c1665ae8edfdp-2, 0x1.1c1665ae8edfdp-2, 0x1.838ef05e9dfc2p-3, -0x1.47ae147ae147bp-5, -0x1.999999999999ap-5, -0x1.1111111111111p-5, -0x1.c71c71c71c71cp-6, 0x1.1111111111111p-5, },
{ 0x1.1111111111111p-5, 0x1.999999999999ap-6, 0x1.1111111111111p-5, 0x0p+0, 0x1.999999999999ap-5, 0x0p+0, 0x1.47ae147ae147bp-5, 0x0p+0, 0x1.838ef05e9dfc2p-3, 0x1.1c1665ae8edfdp-2, 0x1.1c1665ae8edfdp-2, 0x1.838ef05e9dfc2p-3, -0x1.47ae147ae147bp-5, -0x1.999999999999ap-5, -0x1.1111111111111p-5, -0x1.999999999999ap-6, 0x1.1111111111111p-5, },
{ 0x0p+0, 0x1.999999999999ap-4, 0x1.1426b5fe2e12p-1, 0x1.9e3a10fd451bp-1, 0x1.3c7421fa8a36p-2, 0x1.f64f5b33e32d2p-1, 0x1.aaaaaaaaaaaabp-1, 0x1.6a83874248bcfp-2, 0x1.c3daaa6be8617p-1, 0x1.4904eec312a6bp-1, 0x1.6df62279dab2bp-2, 0x1.e12aaca0bcf46p-4, 0x1.aaaaaaaaaaaabp-1, 0x1.3c7421fa8a36p-2, 0x1.1426b5fe2e12p-1, 0x1.999999999999ap-4, 0x1p+0, } },
{ "rkfeagin12", 0, 1, {
{ },
{ 0x1.999999999999ap-3, },
{ -0x1.ba781948b0fcdp-3, 0x1.8b0fcd6e9e065p-1, },
{ 0x1.aaaaaaaaaaaabp-3, 0x0p+0, 0x1.4p-1, },
{ 0x1.8bf258bf258bfp-3, 0x0p+0, 0x1.c28f5c28f5c29p-3, -0x1.47ae147ae147bp-4, },
{ 0x1.999999999999ap-4, 0x0p+0, 0x0p+0, 0x1.999999999999ap-2, 0x1p-1, },
{ 0x1.a7618114e1bf6p-4, 0x0p+0, 0x0p+0, 0x1.fc1f18ff82c19p-4, 0x1.eec46c2c2dd8dp-2, -0x1.3d76fba4b41a8p-5, },
{ 0x1.fc0f8b44d6b8cp-4, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.bc850ab6ee4c3p-3, 0x1.c26a4694a2604p-7, -0x1.0ec8de4b8687ap-4, },
{ 0x1.76b1199a94565p-4, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.64be8711e68c3p-8, 0x1.16d25481be4f8p-4, 0x1.a2321e9532f0cp-2, },
{ 0x1.6c8cb210c9825p-4, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.475eedf7fdaa4p-8, 0x1.9777e0f8da328p-2, 0x1.b63356509c5e7p-2, -0x1.625a28c0ce4b6p-4, },
{ 0x1.1cb538559f3d5p-4, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.087e311eb7a4ep-3, 0x1.87de56e74aaa9p+0, 0x1.27df336077893p-1, -0x1.e7101bbff31eap-1, -0x1.a21345b508404p-2, },
{ 0x1.6c6e32bae599fp-5, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.f2b2da0494088p-9, 0x1.5e78691b81428p-7, 0x1.576f6cdef5a4cp-6, -0x1.7dfc87a0957ddp-6, 0x1.5911679390f89p-9, 0x1.9d7f1882bd15fp-9, },
{ 0x1.3ed076ed7baedp-6, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.1c96c5ee267e1p-14, -0x1.6889f53acfc0bp-15, 0x1.27e19b2a71605p-16, 0x1.0bd2e2a11bffep-4, },
{ 0x1.a79a12264a217p-3, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.1147575535495p-6, -0x1.2031f040ee87p-7, 0x1.c664fadcb61cap-9, -0x1.b8f7a7c2b8e93p-1, 0x1.d13ad1c9e9ee1p-1, },
{ 0x1.4e1ccc9c1c676p-6, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.64227945bc47ep-4, -0x1.39ffae5f5f91ap-6, 0x1.adac51fbb90efp-8, 0x1.947860796bbd9p-4, 0x1.5edb4a964e0eap-8, 0x1.3465593a2214dp-2, },
{ 0x1.d3c8d97defab6p-3, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.fead2722b7824p-2, 0x1.14279b41403d9p-3, -0x1.3d67e215b6985p-5, -0x1.4654dfbfa1b1ep+0, 0x1.706d075345d25p+0, -0x1.b6498c202da42p-3, 0x1.ea9981de68251p-1, },
{ 0x1.0048e6c74851ep+1, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.08940c910b355p+1, 0x1.3f7a0fefd1695p-1, -0x1.7ab3ea623bf47p-5, -0x1.1b310304305edp+3, 0x1.ef866202bd05fp+2, -0x1.2d3d53ed02ccfp-1, -0x1.1b59b105e7f58p+0, -0x1.dbeb3ae22b89ep-1, },
{ 0x1.91a68de728e6fp+1, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.087e311eb7a4ep-3, 0x1.87de56e74aaa9p+0, 0x1.27df336077893p-1, 0x1.5aefbdb36b046p+2, 0x1.da35465678ac8p-3, 0x1.3701a4268c9e4p-4, -0x1.8bef981d09201p+3, 0x1.3b588bc4ea3b3p+3, 0x1.5fe45ce22b532p-4, -0x1.69c15f649d7b7p+2, -0x1.f1690f9880515p+0, -0x1.06ddba9a65c9fp-3, },
{ 0x1.6233a5309732bp+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.475eedf7fdaa4p-8, 0x1.9777e0f8da328p-2, 0x1.b63356509c5e7p-2, -0x1.4d90d2b2dc73dp+0, 0x1.5294e6cbf6ef1p-1, -0x1.280ef477b95d5p-3, -0x1.bdcf047ce047p+2, 0x1.aa1e125c7d6e7p+2, -0x1.ab8366561a6a7p+0, 0x1.0835a45882de5p+1, -0x1.59780a697623dp-1, -0x1.2f167c91e0c05p-10, -0x1.648dc53fbd16bp-8, },
{ 0x1.e70871a52e5aep-1, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.bc850ab6ee4c3p-3, 0x1.c26a4694a2604p-7, -0x1.0ec8de4b8687ap-4, 0x0p+0, 0x1.37df775a192b8p-3, -0x1.59d8c811745aap-2, -0x1.3bed141f98f56p-6, -0x1.d75f328efc03ep+1, 0x1.94bbb7da506d8p+1, -0x1.7b5a87035ef9bp-2, -0x1.a5ddeadc54a35p-5, -0x1.b2f6743a20af6p-11, 0x1.778ae7e15e631p-19, 0x1.56eb9aa3197b3p-5, 0x1.1dc84351c67dfp-2, },
{ 0x1.a7618114e1bf6p-4, 0x0p+0, 0x0p+0, 0x1.fc1f18ff82c19p-4, 0x1.eec46c2c2dd8dp-2, -0x1.3d76fba4b41a8p-5, 0x0p+0, -0x1.c0d5568f57e66p-2, 0x0p+0, -0x1.bfc4903c56495p-3, -0x1.ffbab1f6444bbp-6, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.ffbab1f6444bbp-6, 0x1.bfc4903c56495p-3, 0x1.c0d5568f57e66p-2, },
{ 0x1.8bf258bf258bfp-3, 0x0p+0, 0x1.c28f5c28f5c29p-3, -0x1.47ae147ae147bp-4, 0x0p+0, 0x0p+0, 0x1.9326bc5236189p-4, -0x1.923fdf4e54946p-3, 0x0p+0, 0x1.beeed3e630b69p-2, 0x1.0b4f82326dcdp-4, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.0b4f82326dcdp-4, -0x1.beeed3e630b69p-2, 0x1.923fdf4e54946p-3, -0x1.9326bc5236189p-4, },
{ -0x1.ba781948b0fcdp-3, 0x1.8b0fcd6e9e065p-1, 0x0p+0, 0x0p+0, -0x1.5555555555555p-1, 0x0p+0, -0x1.9012bc3927d44p-2, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.9012bc3927d44p-2, 0x1.5555555555555p-1, },
{ 0x1.999999999999ap-3, 0x0p+0, -0x1.511e8d2b3183bp-3, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.511e8d2b3183bp-3, },
{ 0x1.78c70c945042p+0, 0x1.9333333333333p-1, 0x1.af684bda12f68p-2, 0x0p+0, 0x1.2aaaaaaaaaaabp-2, 0x0p+0, 0x1.64f796264da02p-2, 0x1.d603db79d677dp-3, 0x1.7296f9ea55a9dp+2, 0x1.aca23467c036ep-2, 0x1.3a68a9907e3dfp-2, -0x1.2bf7f4d237512p+2, 0x1.915f29d3635d8p+1, 0x1.66bec312642a3p+0, -0x1.61e03b4e0f4cep+2, -0x1.b4ce88e8f2d49p-1, 0x1.a83f13d5cc1efp-4, -0x1.1fb10d15d1eb1p-3, -0x1.aca23467c036ep-2, -0x1.d603db79d677dp-3, -0x1.64f796264da02p-2, -0x1.2aaaaaaaaaaabp-2, -0x1.af684bda12f68p-2, -0x1.9333333333333p-1, },
}, { 0x1.8618618618618p-6, 0x1.999999999999ap-4, 0x1p-5, 0x0p+0, 0x1.5555555555555p-5, 0x0p+0, 0x1.999999999999ap-5, 0x1.999999999999ap-5, 0x0p+0, 0x1.999999999999ap-4, 0x1.2492492492492p-4, 0x0p+0, 0x1.1b784990653efp-3, 0x1.ba1b7611fb4d8p-3, 0x1.f3526859b8cecp-3, 0x1.ba1b7611fb4d8p-3, 0x1.1b784990653efp-3, -0x1.2492492492492p-4, -0x1.999999999999ap-4, -0x1.999999999999ap-5, -0x1.999999999999ap-5, -0x1.5555555555555p-5, -0x1p-5, -0x1.999999999999ap-4, 0x1.8618618618618p-6, },
{ 0x1.8618618618618p-6, 0x1.8p-6, 0x1p-5, 0x0p+0, 0x1.5555555555555p-5, 0x0p+0, 0x1.999999999999ap-5, 0x1.999999999999ap-5, 0x0p+0, 0x1.999999999999ap-4, 0x1.2492492492492p-4, 0x0p+0, 0x1.1b784990653efp-3, 0x1.ba1b7611fb4d8p-3, 0x1.f3526859b8cecp-3, 0x1.ba1b7611fb4d8p-3, 0x1.1b784990653efp-3, -0x1.2492492492492p-4, -0x1.999999999999ap-4, -0x1.999999999999ap-5, -0x1.999999999999ap-5, -0x1.5555555555555p-5, -0x1p-5, -0x1.8p-6, 0x1.8618618618618p-6, },
{ 0x0p+0, 0x1.999999999999ap-3, 0x1.1c71c71c71c72p-1, 0x1.aaaaaaaaaaaabp-1, 0x1.5555555555555p-2, 0x1p+0, 0x1.57fad99e583aep-1, 0x1.27a782ce70456p-2, 0x1.2p-1, 0x1.aaaaaaaaaaaabp-1, 0x1.e53855e6f7707p-1, 0x1.c1039a02119e7p-5, 0x1.5bb392e901c25p-4, 0x1.0ff30d0a8c672p-2, 0x1p-1, 0x1.7806797ab9cc7p-1, 0x1.d4898da2dfc7bp-1, 0x1.e53855e6f7707p-1, 0x1.aaaaaaaaaaaabp-1, 0x1.27a782ce70456p-2, 0x1.57fad99e583aep-1, 0x1.5555555555555p-2, 0x1.1c71c71c71c72p-1, 0x1.999999999999ap-3, 0x1p+0, } },
{ "rkfeagin14", 0, 1, {
{ },
{ 0x1.c71c71c71c71cp-4, },
{ -0x1.aaaaaaaaaaaabp-1, 0x1.638e38e38e38ep+0, },
{ 0x1.aaaaaaaaaaaabp-3, 0x0p+0, 0x1.4p-1, },
{ 0x1.8bf258bf258bfp-3, 0x0p+0, 0x1.c28f5c28f5c29p-3, -0x1.47ae147ae147bp-4, },
{ 0x1.999999999999ap-4, 0x0p+0, 0x0p+0, 0x1.999999999999ap-2, 0x1p-1, },
{ 0x1.a7df6d7ded4e3p-4, 0x0p+0, 0x0p+0, 0x1.f3fe816d712aap-4, 0x1.ee2801d76d215p-2, -0x1.387363fb082b8p-5, },
{ 0x1.fd766f63d145ap-4, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.cf18268801ep-3, 0x1.c3d310e51d5f5p-7, -0x1.135657627d25fp-4, },
{ 0x1.7fc315a99c8ap-4, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.920097514fe56p-8, 0x1.ba689a32cb139p-3, 0x1.b1dd1e651b7cp-2, },
{ 0x1.5770fb143eb55p-4, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.827f19b6d1293p-7, -0x1.fa77e8ad6834ap-3, 0x1.909f361f40b7fp-4, 0x1.bda02ff1b77b4p-3, },
{ 0x1.f804669c79938p-5, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.84202c3b2b442p-8, 0x1.e19d2e4dfde9dp-2, 0x1.32e1a334d2678p-2, -0x1.fb33876f2a5cp-3, 0x1.c639dde2842edp-4, },
{ 0x1.57d17c1d829f8p-5, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.a0caf71eb01adp-9, 0x1.9ce0294a2eb54p-1, 0x1.8fc33f8f05c0bp-4, 0x1.8ea1754b4f29cp-1, 0x1.a39d972cf65f1p-3, -0x1.900796bd36774p+0, },
{ 0x1.6695f5adafdebp-5, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.992f11bd59f35p-8, 0x1.99b031ff026e3p-3, -0x1.07e3d702e5b0fp-7, 0x1.5a8ce1a3b6a63p-6, },
{ 0x1.d07c343802f7ap-6, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.46954c530edf5p-9, 0x1.790f342f35c15p-6, -0x1.a64199f6d318cp-9, 0x1.43e4921e8803ap-7, -0x1.5cff3169f0efap-6, },
{ 0x1.5fc194ff0dedep-2, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.af01697c2d5c6p-3, 0x1.08c63708f1b23p+0, 0x1.896a3d443e1a2p-8, 0x1.b63d859d67a3fp-1, -0x1.f458258647538p-1, -0x1.51ef0e6f45bc2p-1, },
{ -0x1.d6769a163e75bp-7, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.2c08e0b61fb07p-5, 0x1.1eedcad1faeedp-5, 0x1.27afddb2de9fep-5, -0x1.b289512c17555p-6, 0x1.6d1ddb77bc6c2p-5, 0x1.fd4f2ef5776fdp-4, 0x1.0f3519fc5b9b8p-8, },
{ 0x1.6c93c23549de6p-2, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.ccff54a24d9cap-2, 0x1.b8dc4ec3c26cp-2, 0x1.0621543012a3p-1, 0x1.d10d2cafb5b58p-1, -0x1.3d3ced812b915p+0, -0x1.4c501b2ec91bp-1, 0x1.01bffaa53fdecp-2, 0x1.8f4fe6a0256bbp-1, },
{ 0x1.ad0cd0c3b7199p-7, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.86ee6fa61aea3p-14, 0x1.9e00adf9430ccp-5, 0x1.afe58fd86c729p-21, 0x1.363c1f8f17afbp-11, -0x1.af3b03a42ac5bp-22, },
{ 0x1.54aab044d3457p-6, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.31801f516d301p-11, -0x1.06b3882220116p-7, 0x1.0f047f35dc6d9p-18, 0x1.5e0c5a73f90bcp-4, -0x1.12750514b9557p-19, 0x1.af6d051629576p-4, },
{ 0x1.66caf700f150fp+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.d78e5c7086bdp-3, -0x1.cd82250dd175ap+2, 0x1.e8c50027feed4p-9, -0x1.2db4b6fe70673p+2, -0x1.ce5654d9639afp-10, 0x1.e90b2624407dep+2, 0x1.c0c5471525a14p+1, },
{ 0x1.7e7266df8d289p+3, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.f2de27ea26892p+2, -0x1.c399e2adc5437p+5, 0x1.75b596ffdc1c3p-4, -0x1.9779e1696cf1p+3, -0x1.45231b8e63911p-5, 0x1.b38382ba77769p+5, -0x1.d27267cfc6509p+1, -0x1.9be7d997c85fbp-1, },
{ -0x1.299e6d26b1063p+7, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.6eeb0957de775p+6, 0x1.61d3fc8ef5399p+9, -0x1.1b0af7fa8e24dp+0, 0x1.6044e93a368dcp+7, 0x1.f72d955703b55p-2, -0x1.56239584cc1d4p+9, 0x1.bfdb624132b62p+4, 0x1.a63502ad4c1d5p+3, 0x1.405465ea07c3ap+0, },
{ -0x1.3589ddf4a1173p+3, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.1e12ddc6edb02p+2, 0x1.6c1a093468052p+5, -0x1.24146407146e1p-4, 0x1.67468b6dd82fbp+3, 0x1.028c696a72e12p-3, -0x1.5c59fa0b9d7fp+5, 0x1.930882c64c3a9p-1, 0x1.1084ff92aae4cp-1, 0x1.b08f95ce678d4p-2, 0x1.5fe670df56f43p-4, },
{ -0x1.421ff9b28b77p+3, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.2c08e0b61fb07p-5, 0x1.1eedcad1faeedp-5, 0x1.27afddb2de9fep-5, -0x1.b289512c17555p-6, -0x1.915641d8010d1p+2, 0x1.81a9d3ec8d243p+5, -0x1.1c74a2748a537p-4, 0x1.95cb514229a9ap+3, 0x1.882373d982cbap-7, -0x1.75ccc07a951e4p+5, 0x1.548e49925fb64p+0, 0x1.01f6859880329p+0, 0x1.5743b94781c0ep-6, 0x1.5848e2494354p-6, 0x1.3803fdb4de31bp-7, },
{ -0x1.997a638f92b9ep+8, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.af01697c2d5c6p-3, 0x1.08c63708f1b23p+0, 0x1.896a3d443e1a2p-8, 0x1.b63d859d67a3fp-1, -0x1.f508b4089abc7p+7, 0x1.e69b2dbc7ff28p+10, -0x1.85c3d503ac1ccp+1, 0x1.eaa05a68a4da9p+8, 0x1.910490745724dp+0, -0x1.d67e5ac431668p+10, 0x1.2d09719da6d73p+6, 0x1.149665748b4ap+5, 0x1.9b11abeded1fdp+1, -0x1.d77534a853dbbp-2, -0x1.64a56f75d6378p-4, -0x1.d92f66b71ed61p+2, },
{ 0x1.b77c19d3c697dp+1, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.46954c530edf5p-9, 0x1.790f342f35c15p-6, -0x1.a64199f6d318cp-9, 0x1.43e4921e8803ap-7, 0x1.14cdb7a0fbae8p+1, -0x1.0451dd5111103p+4, -0x1.073d18d81f535p-3, -0x1.1fa71ecbab39dp+3, -0x1.c8e931b13f8a4p-9, 0x1.f965548924ceap+3, -0x1.26183181faa04p-1, -0x1.61e5803c1c77ap-2, -0x1.b201af6cc7496p-8, -0x1.fdbb31c87abdcp-8, -0x1.d2ba07384543p-9, 0x1.32bda556de4fcp+2, 0x1.3ad46aa189adfp-3, },
{ 0x1.026e4a00cab67p+5, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.a0caf71eb01adp-9, 0x1.9ce0294a2eb54p-1, 0x1.8fc33f8f05c0bp-4, 0x1.8ea1754b4f29cp-1, 0x1.a39d972cf65f1p-3, -0x1.900796bd36774p+0, 0x0p+0, 0x1.057ce23b2558p+4, -0x1.3516cff391446p+7, 0x1.91d8929bfbbfp+0, 0x1.a36fffd99bbafp+1, -0x1.9c75590661ddcp-5, 0x1.32a46e042ead6p+7, 0x1.cb3e5f2451a9p+2, -0x1.785df638e9b61p+1, -0x1.10bb02041e54ap-4, -0x1.7ac0fed1fc248p-5, -0x1.4e8f2810dd5d3p-6, -0x1.aad1883e2bc21p+5, -0x1.5b0134a729353p+0, -0x1.926c26bc31627p+0, },
{ -0x1.0a528565a8121p+4, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.84202c3b2b442p-8, 0x1.e19d2e4dfde9dp-2, 0x1.32e1a334d2678p-2, -0x1.fb33876f2a5cp-3, 0x1.c639dde2842edp-4, 0x0p+0, -0x1.f78532708f4d9p-2, -0x1.6f2d979450467p+3, 0x1.41098a4e4f322p+6, -0x1.8959fa8bb9c4cp-2, 0x1.d203b6be15e43p+2, -0x1.0fc4b1e8df17fp-3, -0x1.4451e721381dcp+6, -0x1.40189241073b6p+0, 0x1.4bdb7eab301a5p+1, -0x1.34acc3fc608dbp-2, 0x1.c56537577ab99p-3, 0x1.52f9c45017cacp-4, 0x1.2fefe31db17fp+4, 0x1.13b18a1378a7bp-2, 0x1.a072932dad0a6p+0, 0x1.f78532708f4d9p-2, },
{ 0x1.5770fb143eb55p-4, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.827f19b6d1293p-7, -0x1.fa77e8ad6834ap-3, 0x1.909f361f40b7fp-4, 0x1.bda02ff1b77b4p-3, 0x0p+0, 0x1.19c67b8b97239p-3, 0x1.685779238d6bcp-5, 0x0p+0, -0x1.0703cb06203e8p-1, 0x1.a71817d8b77d2p-1, 0x1.9b3aa149988f9p+4, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.9b3aa149988f9p+4, -0x1.a71817d8b77d2p-1, 0x1.0703cb06203e8p-1, -0x1.685779238d6bcp-5, -0x1.19c67b8b97239p-3, },
{ 0x1.fd766f63d145ap-4, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.cf18268801ep-3, 0x1.c3d310e51d5f5p-7, -0x1.135657627d25fp-4, 0x0p+0, 0x0p+0, -0x1.b664f4771adddp-1, -0x1.f69fc24ce87ap+0, -0x1.dbd14f9b1983dp-3, 0x0p+0, 0x1.139f73c45ed29p+2, -0x1.76af75e9b92b9p+1, -0x1.4940aec170508p+6, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.4940aec170508p+6, 0x1.76af75e9b92b9p+1, -0x1.139f73c45ed29p+2, 0x1.dbd14f9b1983dp-3, 0x1.f69fc24ce87ap+0, 0x1.b664f4771adddp-1, },
{ 0x1.a7df6d7ded4e3p-4, 0x0p+0, 0x0p+0, 0x1.f3fe816d712aap-4, 0x1.ee2801d76d215p-2, -0x1.387363fb082b8p-5, 0x0p+0, -0x1.19db12e358ca9p-1, 0x0p+0, -0x1.6c803ab08701dp-1, -0x1.2b130921f8293p-1, 0x0p+0, 0x0p+0, 0x1.0e23a77cb5ecdp+1, -0x1.5709b027ca2cep-4, 0x1.4669ec22ee688p+2, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, -0x1.4669ec22ee688p+2, 0x1.5709b027ca2cep-4, -0x1.0e23a77cb5ecdp+1, 0x0p+0, 0x1.2b130921f8293p-1, 0x1.6c803ab08701dp-1, 0x1.19db12e358ca9p-1, },
{ 0x1.8bf258bf258bfp-3, 0x0p+0, 0x1.c28f5c28f5c29p-3, -0x1.47ae147ae147bp-4, 0x0p+0, 0x0p+0, 0x1.c288775a4ebc3p-4, -0x1.04667203d3e2ep-2, 0x0p+0, 0x1.bb2c17c82dd3ep-1, 0x1.a97e38d7fcc59p+1, 0x0p+0, 0x0p+0, -0x1.8053bdc87cd83p+3, 0x1.e80a36faf2d92p-2, -0x1.d0638992cb0f5p+4, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.d0638992cb0f5p+4, -0x1.e80a36faf2d92p-2, 0x1.8053bdc87cd83p+3, 0x0p+0, -0x1.a97e38d7fcc59p+1, -0x1.bb2c17c82dd3ep-1, 0x1.04667203d3e2ep-2, -0x1.c288775a4ebc3p-4, },
{ -0x1.aaaaaaaaaaaabp-1, 0x1.638e38e38e38ep+0, 0x0p+0, 0x0p+0, -0x1.8p-1, 0x0p+0, -0x1.f859aa2a54b5fp-2, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.f859aa2a54b5fp-2, 0x1.8p-1, },
{ 0x1.c71c71c71c71cp-4, 0x0p+0, -0x1.c71c71c71c71cp-3, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x1.c71c71c71c71cp-3, },
{ 0x1.24b1f79012a37p-2, 0x1.2aaaaaaaaaaabp-2, 0x1.cp-3, 0x0p+0, 0x1.5p-3, 0x0p+0, 0x1.bedcae954dc96p-3, 0x1.7171d4fb2c598p-3, 0x0p+0, 0x1.a54d4c24a0931p-3, 0x1.f114fa188819bp-3, 0x1.f8c30d216bcfap-3, -0x1.b996f58b66f81p+1, 0x1.d4bcb5f2a5d3ap-3, 0x1.2216ee53f09b6p-2, 0x1.9afd2c8d86b91p+1, -0x1.c9ceb2d15bd3bp-3, -0x1.6a0bc8c9015bfp-1, 0x1.9b09b29f0355p+1, 0x1.68d7d77a30b3fp+0, -0x1.35fd4eeb2b943p-3, 0x1.7d497810f61aep-2, 0x1.030cdc4997f6p-2, -0x1.9afd2c8d86b91p+1, -0x1.2216ee53f09b6p-2, -0x1.d4bcb5f2a5d3ap-3, -0x1.f8c30d216bcfap-3, -0x1.f114fa188819bp-3, -0x1.a54d4c24a0931p-3, -0x1.7171d4fb2c598p-3, -0x1.bedcae954dc96p-3, -0x1.5p-3, -0x1.cp-3, -0x1.2aaaaaaaaaaabp-2, },
}, { 0x1.2492492492492p-6, 0x1.c189374bc6a7fp-8, 0x1.8p-7, 0x0p+0, 0x1.2p-6, 0x0p+0, 0x1.8p-6, 0x1.ep-6, 0x0p+0, 0x1.2p-5, 0x1.5p-5, 0x1.8p-5, 0x0p+0, 0x1.bp-5, 0x1.ep-5, 0x1.08p-4, 0x0p+0, 0x1.af85b2a5aeb91p-4, 0x1.5d4f44608f7aap-3, 0x1.a65b992806dfbp-3, 0x1.a65b992806dfbp-3, 0x1.5d4f44608f7aap-3, 0x1.af85b2a5aeb91p-4, -0x1.08p-4, -0x1.ep-5, -0x1.bp-5, -0x1.8p-5, -0x1.5p-5, -0x1.2p-5, -0x1.ep-6, -0x1.8p-6, -0x1.2p-6, -0x1.8p-7, -0x1.c189374bc6a7fp-8, 0x1.2492492492492p-6, },
{ 0x1.2492492492492p-6, 0x1.8p-8, 0x1.8p-7, 0x0p+0, 0x1.2p-6, 0x0p+0, 0x1.8p-6, 0x1.ep-6, 0x0p+0, 0x1.2p-5, 0x1.5p-5, 0x1.8p-5, 0x0p+0, 0x1.bp-5, 0x1.ep-5, 0x1.08p-4, 0x0p+0, 0x1.af85b2a5aeb91p-4, 0x1.5d4f44608f7aap-3, 0x1.a65b992806dfbp-3, 0x1.a65b992806dfbp-3, 0x1.5d4f44608f7aap-3, 0x1.af85b2a5aeb91p-4, -0x1.08p-4, -0x1.ep-5, -0x1.bp-5, -0x1.8p-5, -0x1.5p-5, -0x1.2p-5, -0x1.ep-6, -0x1.8p-6, -0x1.2p-6, -0x1.8p-7, -0x1.8p-8, 0x1.2492492492492p-6, },
{ 0x0p+0, 0x1.c71c71c71c71cp-4, 0x1.1c71c71c71c72p-1, 0x1.aaaaaaaaaaaabp-1, 0x1.5555555555555p-2, 0x1p+0, 0x1.5708888971dd1p-1, 0x1.3032b1cb7ee2fp-2, 0x1.745d1745d1746p-1, 0x1.1f086e42a1eabp-3, 0x1.66c249642c074p-1, 0x1.745d1745d1746p-2, 0x1.0d79435e50d79p-2, 0x1.41447b2c09a2p-5, 0x1.a036b912d8c2fp-1, 0x1.5555555555555p-3, 0x1.ccccccccccccdp-1, 0x1.06ad19dc54156p-4, 0x1.a21958fed45d6p-3, 0x1.94d6bba00f9a8p-2, 0x1.3594a22ff832cp-1, 0x1.9779a9c04ae8bp-1, 0x1.df2a5cc4757d5p-1, 0x1.5555555555555p-3, 0x1.a036b912d8c2fp-1, 0x1.41447b2c09a2p-5, 0x1.745d1745d1746p-2, 0x1.66c249642c074p-1, 0x1.1f086e42a1eabp-3, 0x1.3032b1cb7ee2fp-2, 0x1.5708888971dd1p-1, 0x1.5555555555555p-2, 0x1.1c71c71c71c72p-1, 0x1.c71c71c71c71cp-4, 0x1p+0, } },
{ "rkgl", 1, 0, {
{ 0x1.1c71c71c71c72p-3, -0x1.26b88a4e09a68p-5, 0x1.40c7cef22597p-7, },
{ 0x1.337831ea8a882p-2, 0x1.c71c71c71c71cp-3, -0x1.7066ace18c0f8p-6, },
{ 0x1.126b88a4e09a6p-2, 0x1.ebf38310dda69p-2, 0x1.1c71c71c71c72p-3, },
}, { 0x1.1c71c71c71c72p-2, 0x1.c71c71c71c71cp-2, 0x1.1c71c71c71c72p-2, },
{ -0x1.aaaaaaaaaaaabp-1, 0x1.5555555555555p+1, -0x1.aaaaaaaaaaaabp-1, },
{ 0x1.cda042f0236ep-4, 0x1p-1, 0x1.c64bf7a1fb924p-1, } },
{ "rklc", 1, 1, {
{ 0x1.5555555555555p-3, -0x1.5555555555555p-2, 0x1.5555555555555p-3, },
{ 0x1.5555555555555p-3, 0x1.aaaaaaaaaaaabp-2, -0x1.5555555555555p-4, },
{ 0x1.5555555555555p-3, 0x1.5555555555555p-1, 0x1.5555555555555p-3, },
}, { 0x1.5555555555555p-3, 0x1.5555555555555p-1, 0x1.5555555555555p-3, },
{ -0x1p-1, 0x1p+1, -0x1p-1, },
{ 0x0p+0, 0x1p-1, 0x1p+0, } },
