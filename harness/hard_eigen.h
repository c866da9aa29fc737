// Symmetric matrices, found by a random search, for which the iterations of the real Schur decomposition of Eigen do not
// converge: {order, eigenvalues, elements by rows}.  Multiplied by a power of two they still do not.
#ifndef VERIF_HARD_EIGEN_H
#define VERIF_HARD_EIGEN_H
#include <vector>
namespace hard {
struct Case { int n; std::vector<double> values, a; };
inline const std::vector<Case> &cases() {
  static const std::vector<Case> c = {
    {4, {0.01, 0.01, 1, 1}, {0x1.a3f0101cbb9acp-2, 0x1.f40f03f5deda5p-3, -0x1.76d6312d29326p-2, -0x1.a5bcee1ba23b2p-3, 0x1.f40f03f5deda5p-3, 0x1.4bad10e7e9ce8p-3, -0x1.906401ba2aaefp-3, -0x1.5fc507d74a64fp-3, -0x1.76d6312d29326p-2, -0x1.906401ba2aaefp-3, 0x1.380afb5a858f6p-1, -0x1.fd876a5ae9b21p-3, -0x1.a5bcee1ba23b2p-3, -0x1.5fc507d74a64fp-3, -0x1.fd876a5ae9b21p-3, 0x1.ad4f2900f9399p-1}},
    {4, {1, 0.01, 1, 0.01}, {0x1.92717c265d6a2p-1, -0x1.df199ab232f6fp-4, -0x1.8c50b39e74d5ep-2, 0x1.a025540d9f32ep-5, -0x1.df199ab232f6fp-4, 0x1.9984c0e1fcdabp-1, -0x1.b8a215f6855ap-3, -0x1.40c2f0f2bec68p-2, -0x1.8c50b39e74d5ep-2, -0x1.b8a215f6855ap-3, 0x1.3314366cc33aep-2, 0x1.538707fcf8f53p-4, 0x1.a025540d9f32ep-5, -0x1.40c2f0f2bec68p-2, 0x1.538707fcf8f53p-4, 0x1.12f461946c9fep-3}},
    {4, {0, 0, 1, 1}, {0x1.7858afad7ade7p-1, -0x1.f7f1726b663p-3, -0x1.65c217969664cp-2, 0x1.c350cc0ff7298p-4, -0x1.f7f1726b663p-3, 0x1.421087adbece9p-1, -0x1.0e973a3f5207cp-3, 0x1.9399193bb7756p-2, -0x1.65c217969664cp-2, -0x1.0e973a3f5207cp-3, 0x1.1e425df7b3048p-2, -0x1.fd77c359644cap-3, 0x1.c350cc0ff7298p-4, 0x1.9399193bb7756p-2, -0x1.fd77c359644cap-3, 0x1.6ceb3351d9a0ep-2}},
    {4, {0.01, 0, 0, 0.01}, {0x1.475644c974de2p-7, 0x1.e7cdb9ccb7a3ap-13, -0x1.338567bb7d75p-13, 0x1.64e7776a89e8p-13, 0x1.e7cdb9ccb7a3ap-13, 0x1.8c6370c45a66ep-12, 0x1.b15f5bc618ebep-10, 0x1.e36f2a594e822p-11, -0x1.338567bb7d75p-13, 0x1.b15f5bc618ebep-10, 0x1.e2d2b197114d7p-8, 0x1.0b58bf1b1170cp-8, 0x1.64e7776a89e8p-13, 0x1.e36f2a594e822p-11, 0x1.0b58bf1b1170cp-8, 0x1.28e5bf6a88dcdp-9}},
    {5, {0.01, 1, 1, 0.01, 1}, {0x1.c7220fa1e40bfp-2, 0x1.ea0bb232c01fcp-5, -0x1.2627da588e911p-2, 0x1.ec648f45ddadcp-4, -0x1.80414c7f0a3ep-2, 0x1.ea0bb232c01fcp-5, 0x1.ce5861ed2a2abp-2, -0x1.932d0a44fd5f4p-5, -0x1.df5c370effeb1p-2, -0x1.0b32c047e02f6p-3, -0x1.2627da588e911p-2, -0x1.932d0a44fd5f4p-5, 0x1.ade13cc166474p-1, -0x1.51064168635cp-8, -0x1.c122329a7b72fp-3, 0x1.ec648f45ddadcp-4, -0x1.df5c370effeb1p-2, -0x1.51064168635cp-8, 0x1.2efa50b69a27cp-1, -0x1.fe46979c951p-5, -0x1.80414c7f0a3ep-2, -0x1.0b32c047e02f6p-3, -0x1.c122329a7b72fp-3, -0x1.fe46979c951p-5, 0x1.62a4aa644f8p-1}},
    {5, {0.01, 0, 1, 0, 0.01}, {0x1.566cd809b7e1cp-1, 0x1.9399f690825adp-4, 0x1.c5884dfff6b53p-2, 0x1.e9336004db52ep-4, -0x1.9841521391fc4p-9, 0x1.9399f690825adp-4, 0x1.38db8ce811316p-6, 0x1.0ee9f9ef1f975p-4, 0x1.01f44d0cf166fp-6, -0x1.4bf50610f30c6p-8, 0x1.c5884dfff6b53p-2, 0x1.0ee9f9ef1f975p-4, 0x1.356a9abdbead7p-2, 0x1.301bffd726287p-4, -0x1.61f3f1579123p-13, 0x1.e9336004db52ep-4, 0x1.01f44d0cf166fp-6, 0x1.301bffd726287p-4, 0x1.8fba518983c34p-6, -0x1.164e25d248a1p-13, -0x1.9841521391fc4p-9, -0x1.4bf50610f30c6p-8, -0x1.61f3f1579123p-13, -0x1.164e25d248a1p-13, 0x1.6b4e23d995021p-8}},
    {5, {0.01, 1, 0, 0.01, 1}, {0x1.38eef7a0c94ddp-2, -0x1.525ba07a2480cp-5, 0x1.3877dd57c7da6p-3, -0x1.8fb43d09416b8p-3, 0x1.8224bc037903p-2, -0x1.525ba07a2480cp-5, 0x1.aaeae098fb797p-2, 0x1.4f07a5734b3b1p-2, 0x1.6eaed3f5a7823p-2, 0x1.5dedd64ece944p-6, 0x1.3877dd57c7da6p-3, 0x1.4f07a5734b3b1p-2, 0x1.8eaeaff2499cap-2, 0x1.858c3565a857ep-3, 0x1.0b8f3b0519e4ep-2, -0x1.8fb43d09416b8p-3, 0x1.6eaed3f5a7823p-2, 0x1.858c3565a857ep-3, 0x1.9fa7170209f97p-2, -0x1.88964bdada9fep-3, 0x1.8224bc037903p-2, 0x1.5dedd64ece944p-6, 0x1.0b8f3b0519e4ep-2, -0x1.88964bdada9fep-3, 0x1.0125a10ccadb9p-1}},
    {5, {0, 0, 1, 1, 0.01}, {0x1.70d9b8be126fp-2, 0x1.1207c7f8b489ap-2, -0x1.77aed985521c6p-3, 0x1.7860fab1e5d57p-3, -0x1.3256951587d89p-2, 0x1.1207c7f8b489ap-2, 0x1.ae3320eb82694p-3, -0x1.8f407f004335bp-3, 0x1.25e80201e384dp-3, -0x1.779d95b6510b7p-3, -0x1.77aed985521c6p-3, -0x1.8f407f004335bp-3, 0x1.8a6940566d0b1p-1, -0x1.6af34ba29581ap-4, -0x1.3f0b744420a11p-2, 0x1.7860fab1e5d57p-3, 0x1.25e80201e384dp-3, -0x1.6af34ba29581ap-4, 0x1.a4ad771eaaf2ep-4, -0x1.42ec4ed196859p-3, -0x1.3256951587d89p-2, -0x1.779d95b6510b7p-3, -0x1.3f0b744420a11p-2, -0x1.42ec4ed196859p-3, 0x1.2226247dbf49cp-1}},
    {6, {0.01, 0.01, 0.01, 1, 1, 1}, {0x1.dc8d436880a1bp-1, 0x1.b91263452df4bp-4, 0x1.3ea09fe92298ep-5, 0x1.1c9ec7c8fe32p-6, -0x1.24c516bcbe9adp-3, 0x1.62260835af324p-3, 0x1.b91263452df4bp-4, 0x1.4f19bbe0e947dp-1, 0x1.fe0d80c5849ebp-4, -0x1.e017fbf9f8d5ep-3, 0x1.7ba95ef35961cp-2, -0x1.cc395860d1a38p-5, 0x1.3ea09fe92298ep-5, 0x1.fe0d80c5849ebp-4, 0x1.daf6dbb2b0ed4p-3, -0x1.1177d1571e465p-2, -0x1.62c48f096920cp-3, -0x1.d37ac07f6f001p-3, 0x1.1c9ec7c8fe32p-6, -0x1.e017fbf9f8d5ep-3, -0x1.1177d1571e465p-2, 0x1.66c9491137d7dp-2, 0x1.fc0de7002db56p-4, 0x1.20199ad0078dfp-2, -0x1.24c516bcbe9adp-3, 0x1.7ba95ef35961cp-2, -0x1.62c48f096920cp-3, 0x1.fc0de7002db56p-4, 0x1.206867477b33bp-1, 0x1.90f90446a3998p-3, 0x1.62260835af324p-3, -0x1.cc395860d1a38p-5, -0x1.d37ac07f6f001p-3, 0x1.20199ad0078dfp-2, 0x1.90f90446a3998p-3, 0x1.3254cddf2a955p-2}},
    {6, {0, 1, 0, 1, 1, 0}, {0x1.afe232f1b56fcp-1, 0x1.56b572ed5f3fbp-4, -0x1.8a5958548c436p-3, 0x1.07c4aa98e85f4p-2, 0x1.2bfa11abb854p-5, -0x1.233e7a0a18ecep-3, 0x1.56b572ed5f3fbp-4, 0x1.5e04edf5e8b68p-1, -0x1.f727b7035f7d1p-4, -0x1.850baf0137fb4p-2, 0x1.180f7f978f0dep-3, -0x1.696cf9df4dc3p-3, -0x1.8a5958548c436p-3, -0x1.f727b7035f7d1p-4, 0x1.ddcd66a526cfdp-4, -0x1.50fb5c7fca978p-7, -0x1.a6ebfd925e199p-3, -0x1.7140ca7653e94p-4, 0x1.07c4aa98e85f4p-2, -0x1.850baf0137fb4p-2, -0x1.50fb5c7fca978p-7, 0x1.4d43b9a59ff66p-2, -0x1.a3e6169e82d98p-6, 0x1.70154aa2eee57p-4, 0x1.2bfa11abb854p-5, 0x1.180f7f978f0dep-3, -0x1.a6ebfd925e199p-3, -0x1.a3e6169e82d98p-6, 0x1.2b1466161b5dfp-1, 0x1.b1eff4a77fa52p-2, -0x1.233e7a0a18ecep-3, -0x1.696cf9df4dc3p-3, -0x1.7140ca7653e94p-4, 0x1.70154aa2eee57p-4, 0x1.b1eff4a77fa52p-2, 0x1.c951deb5a34dep-2}},
    {6, {1, 0.01, 1, 0.01, 0.01, 1}, {0x1.796516b796976p-1, -0x1.b2b4c4ec6691ap-3, 0x1.8a6307bcb4348p-7, 0x1.cc1f48f644f98p-5, 0x1.7465171b6ae53p-2, -0x1.a4ab93c628e78p-4, -0x1.b2b4c4ec6691ap-3, 0x1.82cc9e02c3045p-1, -0x1.87789b32d7caep-3, -0x1.95233d70c8d7ep-4, 0x1.0a82299647d42p-2, -0x1.37cecca8dae95p-3, 0x1.8a6307bcb4348p-7, -0x1.87789b32d7caep-3, 0x1.ad3c43473f7dcp-4, -0x1.d63ff811b0b05p-4, -0x1.2a9d48ba2ef38p-5, 0x1.77c90238af9e4p-3, 0x1.cc1f48f644f98p-5, -0x1.95233d70c8d7ep-4, -0x1.d63ff811b0b05p-4, 0x1.e00c7e0509f12p-2, -0x1.9f5f4a3a8ed6ep-3, -0x1.ae274e2b45b8ap-2, 0x1.7465171b6ae53p-2, 0x1.0a82299647d42p-2, -0x1.2a9d48ba2ef38p-5, -0x1.9f5f4a3a8ed6ep-3, 0x1.ddeea868b9fd1p-2, 0x1.107ca160c4ce6p-5, -0x1.a4ab93c628e78p-4, -0x1.37cecca8dae95p-3, 0x1.77c90238af9e4p-3, -0x1.ae274e2b45b8ap-2, 0x1.107ca160c4ce6p-5, 0x1.fd0ab1373e194p-2}},
    {6, {3, 0, 3, 0, 0, 3}, {0x1.38f3cb41cd2a3p+1, -0x1.5aa6b256d1f8p-5, -0x1.63b5e4967e81ap-1, 0x1.a95b4a02a4bdcp-2, -0x1.89634d82c2303p-2, 0x1.7c919edf99b53p-1, -0x1.5aa6b256d1f8p-5, 0x1.e604e5f49f6e1p-1, -0x1.15f67c5562431p+0, -0x1.753eaa945c3a4p-2, 0x1.50322e05652f8p-1, -0x1.cc240341e75d4p-2, -0x1.63b5e4967e81ap-1, -0x1.15f67c5562431p+0, 0x1.9c008de11787cp+0, 0x1.3da8279299951p-2, -0x1.19ded9fdc835fp-3, 0x1.5bb95d4f75b1ep-1, 0x1.a95b4a02a4bdcp-2, -0x1.753eaa945c3a4p-2, 0x1.3da8279299951p-2, 0x1.a751d803944f1p-3, -0x1.07ba48aad9404p-2, 0x1.52b47d154487p-2, -0x1.89634d82c2303p-2, 0x1.50322e05652f8p-1, -0x1.19ded9fdc835fp-3, -0x1.07ba48aad9404p-2, 0x1.281d11837e908p+1, 0x1.ec428d40eaa6cp-1, 0x1.7c919edf99b53p-1, -0x1.cc240341e75d4p-2, 0x1.5bb95d4f75b1ep-1, 0x1.52b47d154487p-2, 0x1.ec428d40eaa6cp-1, 0x1.79f10a998ec2p+0}},
    {6, {3, 0, 1, 2, 0, 3}, {0x1.ae95ecea2e422p+0, -0x1.c7935c5e91164p-3, 0x1.40ea2a689b83ap-5, 0x1.a55e2c08db64ep-2, 0x1.15aaf26c06f52p-4, -0x1.b289871aa0ccfp-1, -0x1.c7935c5e91164p-3, 0x1.22f2529b3037p+0, 0x1.36f080dd47c8p-3, 0x1.39ab819f528c2p-1, -0x1.f04155f1f4b28p-2, 0x1.53236e5f6367dp-1, 0x1.40ea2a689b83ap-5, 0x1.36f080dd47c8p-3, 0x1.0a4faa92994aep-3, -0x1.3f60b6482a094p-2, -0x1.97b0942d27377p-2, 0x1.da00f03510dc8p-7, 0x1.a55e2c08db64ep-2, 0x1.39ab819f528c2p-1, -0x1.3f60b6482a094p-2, 0x1.2ab6ab1e0ff1p+1, 0x1.5e710c267876ap-1, -0x1.b0f28b088b1d4p-3, 0x1.15aaf26c06f52p-4, -0x1.f04155f1f4b28p-2, -0x1.97b0942d27377p-2, 0x1.5e710c267876ap-1, 0x1.c92c22223ccc3p+0, 0x1.5b9a3421b7d53p-1, -0x1.b289871aa0ccfp-1, 0x1.53236e5f6367dp-1, 0x1.da00f03510dc8p-7, -0x1.b0f28b088b1d4p-3, 0x1.5b9a3421b7d53p-1, 0x1.ee9452c9f1af1p+0}},
    {6, {0.01, 0.01, 1, 0.01, 1, 1}, {0x1.9174ad6f424dep-1, -0x1.48c9ee0382f5p-7, -0x1.94bf5ea3fceacp-6, 0x1.723eca3354d69p-2, 0x1.82e1456e88e22p-3, -0x1.0dec38a9417ap-9, -0x1.48c9ee0382f5p-7, 0x1.384bc32c8432p-1, -0x1.ac6ef61e33fe5p-2, -0x1.b69888a31cf0cp-5, 0x1.2143dfa9a7c38p-4, 0x1.ce84e26133d3ap-3, -0x1.94bf5ea3fceacp-6, -0x1.ac6ef61e33fe5p-2, 0x1.637c58b0e4e5cp-2, -0x1.1d1261aea9ee1p-4, 0x1.0051f4bcbe076p-3, -0x1.3cdffc8a1abap-3, 0x1.723eca3354d69p-2, -0x1.b69888a31cf0cp-5, -0x1.1d1261aea9ee1p-4, 0x1.809083e409e24p-2, -0x1.31cf1b87c009ep-2, -0x1.9e67042d30eap-6, 0x1.82e1456e88e22p-3, 0x1.2143dfa9a7c38p-4, 0x1.0051f4bcbe076p-3, -0x1.31cf1b87c009ep-2, 0x1.a2d7540bf8e1ap-1, 0x1.3d6caaa649402p-5, -0x1.0dec38a9417ap-9, 0x1.ce84e26133d3ap-3, -0x1.3cdffc8a1abap-3, -0x1.9e67042d30eap-6, 0x1.3d6caaa649402p-5, 0x1.85efb01c5e4c9p-4}},
    {7, {0, 1, 1, 0.01, 0.01, 0.01, 1}, {0x1.60197d4319fdap-3, 0x1.ec25772faa1cp-5, 0x1.f8e0a47d4905ap-3, 0x1.cb1c4323451a8p-4, -0x1.8ca3bd7d98c3cp-3, -0x1.2a1994fa86592p-3, -0x1.7834596a2c7e8p-6, 0x1.ec25772faa1cp-5, 0x1.1310efcdbf653p-2, -0x1.6f9c49186be77p-4, 0x1.cdb1815fd6c5ap-3, 0x1.74a2e8b29d328p-4, -0x1.29173877c5875p-2, -0x1.862a670089a42p-3, 0x1.f8e0a47d4905ap-3, -0x1.6f9c49186be77p-4, 0x1.58fed8961eeccp-1, 0x1.6f589bbd212cdp-3, -0x1.09b59708d65cep-2, 0x1.8ec5667752b38p-3, -0x1.b2afa33afd1d2p-4, 0x1.cb1c4323451a8p-4, 0x1.cdb1815fd6c5ap-3, 0x1.6f589bbd212cdp-3, 0x1.73e8668cbddeep-2, 0x1.fb1d0108c69b4p-4, -0x1.2fa304d66b31fp-4, -0x1.5234b4cf1e7d2p-2, -0x1.8ca3bd7d98c3cp-3, 0x1.74a2e8b29d328p-4, -0x1.09b59708d65cep-2, 0x1.fb1d0108c69b4p-4, 0x1.e794556bbc83p-2, 0x1.c46a080a79058p-3, -0x1.0976e9b4ceb4ap-2, -0x1.2a1994fa86592p-3, -0x1.29173877c5875p-2, 0x1.8ec5667752b38p-3, -0x1.2fa304d66b31fp-4, 0x1.c46a080a79058p-3, 0x1.6b990eaf72933p-1, -0x1.2cc255977395bp-4, -0x1.7834596a2c7e8p-6, -0x1.862a670089a42p-3, -0x1.b2afa33afd1d2p-4, -0x1.5234b4cf1e7d2p-2, -0x1.0976e9b4ceb4ap-2, -0x1.2cc255977395bp-4, 0x1.76ee18f89b584p-2}},
    {7, {1, 0, 0.01, 0.01, 0.01, 1, 1}, {0x1.3c8fa5595c981p-4, 0x1.724abb03c3b4fp-6, 0x1.78d806a2bffd2p-3, -0x1.6874bfa6c523ap-5, 0x1.dc89493f85628p-4, -0x1.4873b41fbc914p-6, 0x1.ef95210c23316p-4, 0x1.724abb03c3b4fp-6, 0x1.ff9e144f7e7f2p-4, 0x1.734b0dce3b1d2p-3, 0x1.b37f6bf61893ap-4, 0x1.f570d1df0c35cp-6, -0x1.6e847c46510e7p-3, -0x1.37a95c05e4f0cp-3, 0x1.78d806a2bffd2p-3, 0x1.734b0dce3b1d2p-3, 0x1.bd56d46da9df6p-1, -0x1.7d4151fd8ff33p-3, -0x1.14fe7036f4c32p-6, -0x1.9f06f1f3c1fcbp-4, -0x1.3b1b44dded86p-8, -0x1.6874bfa6c523ap-5, 0x1.b37f6bf61893ap-4, -0x1.7d4151fd8ff33p-3, 0x1.6c1802ceb6399p-2, 0x1.a7948f922ccf9p-3, -0x1.3f31314e958a2p-2, -0x1.80d060614038cp-3, 0x1.dc89493f85628p-4, 0x1.f570d1df0c35cp-6, -0x1.14fe7036f4c32p-6, 0x1.a7948f922ccf9p-3, 0x1.49c9407036362p-1, -0x1.b9ceb3517e7bp-3, 0x1.666096aa1b668p-2, -0x1.4873b41fbc914p-6, -0x1.6e847c46510e7p-3, -0x1.9f06f1f3c1fcbp-4, -0x1.3f31314e958a2p-2, -0x1.b9ceb3517e7bp-3, 0x1.851364ffe1d84p-2, 0x1.b8bca2bfe2652p-3, 0x1.ef95210c23316p-4, -0x1.37a95c05e4f0cp-3, -0x1.3b1b44dded86p-8, -0x1.80d060614038cp-3, 0x1.666096aa1b668p-2, 0x1.b8bca2bfe2652p-3, 0x1.2820a8fb7b0e4p-1}},
    {7, {1, 1, 1, 1, 0.01, 0.01, 0.01}, {0x1.45953e899c458p-1, 0x1.cfbe385d8eccp-3, 0x1.559d4dab9844cp-2, 0x1.254f83546f5b8p-3, -0x1.0e9e347ca4bdbp-4, 0x1.3e29f5216f111p-5, -0x1.941ddc67ab1bfp-3, 0x1.cfbe385d8eccp-3, 0x1.80ae7ce565975p-1, -0x1.80c44d04394dbp-5, -0x1.1070f8b6fcb94p-5, 0x1.068183796c766p-3, -0x1.e391129fef3b8p-3, 0x1.eb6f133899607p-3, 0x1.559d4dab9844cp-2, -0x1.80c44d04394dbp-5, 0x1.ccfaa553e7e1p-2, -0x1.daa3230dd9bafp-3, -0x1.c6fae7eed6661p-7, 0x1.155668794bf6ap-2, -0x1.2309b45f8e912p-5, 0x1.254f83546f5b8p-3, -0x1.1070f8b6fcb94p-5, -0x1.daa3230dd9bafp-3, 0x1.b6b412b170dbdp-1, 0x1.4ff0baa1d76a1p-3, 0x1.07ce66b24d113p-4, -0x1.f31c6fd3d3373p-4, -0x1.0e9e347ca4bdbp-4, 0x1.068183796c766p-3, -0x1.c6fae7eed6661p-7, 0x1.4ff0baa1d76a1p-3, 0x1.5b11a54cf5d82p-2, 0x1.17a1530b6db35p-2, 0x1.3b96bfa43979bp-2, 0x1.3e29f5216f111p-5, -0x1.e391129fef3b8p-3, 0x1.155668794bf6ap-2, 0x1.07ce66b24d113p-4, 0x1.17a1530b6db35p-2, 0x1.209e0e99054a5p-1, 0x1.6fc56e1e10ea2p-3, -0x1.941ddc67ab1bfp-3, 0x1.eb6f133899607p-3, -0x1.2309b45f8e912p-5, -0x1.f31c6fd3d3373p-4, 0x1.3b96bfa43979bp-2, 0x1.6fc56e1e10ea2p-3, 0x1.bb804dd7b75fcp-2}},
    {8, {2, 0, 2, 2, 2, 0, 0, 0}, {0x1.ccc7d4ee09806p+0, -0x1.11448e93dad9cp-2, 0x1.de5dbd287311p-4, -0x1.845b5c7611966p-3, 0x1.8af914ea44fap-6, -0x1.4ca9c51938351p-2, 0x1.6acf24ca6ceaap-2, 0x1.6660e133d66ecp-4, -0x1.11448e93dad9cp-2, 0x1.18a74550acb5fp-2, -0x1.84db6dfce5266p-3, -0x1.57e2b7a416ac1p-3, 0x1.1486bca0f4273p-1, -0x1.4d8c585c5abacp-4, -0x1.f1ffd2f1fd1a6p-4, 0x1.404e3d3eff73ep-3, 0x1.de5dbd287311p-4, -0x1.84db6dfce5266p-3, 0x1.f3e6220b6d321p-1, 0x1.56798a73ab856p-2, -0x1.45f7b3c139807p-2, 0x1.2863d775135b3p-2, -0x1.09c7af4ee73a8p-3, 0x1.984cc2196b3d8p-1, -0x1.845b5c7611966p-3, -0x1.57e2b7a416ac1p-3, 0x1.56798a73ab856p-2, 0x1.08a940dd87037p-1, -0x1.43a3b9e250b35p-3, 0x1.29f9d75b8a247p-1, 0x1.e7ce3353c8b96p-2, 0x1.cc5f4db29932cp-9, 0x1.8af914ea44fap-6, 0x1.1486bca0f4273p-1, -0x1.45f7b3c139807p-2, -0x1.43a3b9e250b35p-3, 0x1.8b1d81ae28f86p+0, 0x1.8d366e32393a7p-4, 0x1.49a80f61e846fp-2, 0x1.a9ffd877b7a78p-2, -0x1.4ca9c51938351p-2, -0x1.4d8c585c5abacp-4, 0x1.2863d775135b3p-2, 0x1.29f9d75b8a247p-1, 0x1.8d366e32393a7p-4, 0x1.6d70bf01e428fp-1, 0x1.389d75e29f7c3p-1, 0x1.1be7ee4b4333cp-5, 0x1.6acf24ca6ceaap-2, -0x1.f1ffd2f1fd1a6p-4, -0x1.09c7af4ee73a8p-3, 0x1.e7ce3353c8b96p-2, 0x1.49a80f61e846fp-2, 0x1.389d75e29f7c3p-1, 0x1.09355cabb61f7p+0, -0x1.7ca468848828p-2, 0x1.6660e133d66ecp-4, 0x1.404e3d3eff73ep-3, 0x1.984cc2196b3d8p-1, 0x1.cc5f4db29932cp-9, 0x1.a9ffd877b7a78p-2, 0x1.1be7ee4b4333cp-5, -0x1.7ca468848828p-2, 0x1.23bb6a6e800bp+0}},
    {8, {3, 0, 0, 3, 3, 1, 3, 0}, {0x1.b3e71997dbef4p-1, -0x1.b3e16a11b30d6p-2, -0x1.3df33ca0ddf98p-1, -0x1.cad44ac52e0dap-3, -0x1.9d235c02860d2p-1, -0x1.4e1cbb666262cp-2, 0x1.26dda7a1980abp-2, 0x1.1e65269d0141p-6, -0x1.b3e16a11b30d6p-2, 0x1.fa759e3fd56c2p-1, -0x1.096cda8747dd7p-1, -0x1.48b46878e82fep-3, 0x1.833af88bea0e8p-1, -0x1.f4c671a61988dp-2, 0x1.9870b3fdb6c4dp-3, -0x1.564330f94b4aep-2, -0x1.3df33ca0ddf98p-1, -0x1.096cda8747dd7p-1, 0x1.94d649c4dc146p+0, 0x1.513b3290051bp-1, 0x1.0bd97039ffddbp-2, 0x1.9d1bdeebcc84ap-1, -0x1.c7a9901b7668dp-2, -0x1.884f985d3fd76p-2, -0x1.cad44ac52e0dap-3, -0x1.48b46878e82fep-3, 0x1.513b3290051bp-1, 0x1.346153030b75p+1, -0x1.ba7989bafa31bp-2, -0x1.8cb2eb49962dep-1, 0x1.46b1f22329cfp-5, 0x1.110db921e999p-5, -0x1.9d235c02860d2p-1, 0x1.833af88bea0e8p-1, 0x1.0bd97039ffddbp-2, -0x1.ba7989bafa31bp-2, 0x1.a43e217847d5ep+0, -0x1.8b09d29433cdp-2, -0x1.812617a4fb4aap-1, -0x1.3782f8e1a61b6p-3, -0x1.4e1cbb666262cp-2, -0x1.f4c671a61988dp-2, 0x1.9d1bdeebcc84ap-1, -0x1.8cb2eb49962dep-1, -0x1.8b09d29433cdp-2, 0x1.efd2731938ee7p+0, 0x1.91083a360071cp-3, 0x1.88e653de3886p-5, 0x1.26dda7a1980abp-2, 0x1.9870b3fdb6c4dp-3, -0x1.c7a9901b7668dp-2, 0x1.46b1f22329cfp-5, -0x1.812617a4fb4aap-1, 0x1.91083a360071cp-3, 0x1.0a5310f910468p+0, -0x1.ac03fd7e87b9cp-1, 0x1.1e65269d0141p-6, -0x1.564330f94b4aep-2, -0x1.884f985d3fd76p-2, 0x1.110db921e999p-5, -0x1.3782f8e1a61b6p-3, 0x1.88e653de3886p-5, -0x1.ac03fd7e87b9cp-1, 0x1.466a875f51a43p+1}},
    {8, {1, 1, 0, 3, 2, 3, 0, 2}, {0x1.6de20fc33ee21p+0, 0x1.2f8ed672750d2p-2, 0x1.489490d1405dap-3, -0x1.893a1b7f1684ap-1, -0x1.a2533ea20929ap-3, 0x1.86896803ab06ep-1, 0x1.afad709387af2p-4, 0x1.6ef23022da3a5p-3, 0x1.2f8ed672750d2p-2, 0x1.a182174cbfa65p+0, 0x1.94d44a1a0719cp-4, -0x1.497ba2b77e3d7p-1, -0x1.4736d733d9806p-1, 0x1.5c7cde1c8744p-8, -0x1.b2d63b90f5aebp-3, 0x1.ccca760842e07p-2, 0x1.489490d1405dap-3, 0x1.94d44a1a0719cp-4, 0x1.e11074fc56eaap+0, 0x1.64e957a4c9f44p-5, -0x1.577a3ca247804p-4, 0x1.359cbdde93a76p-1, -0x1.3496f1fbc45f4p-2, 0x1.7d4769545fd7p-6, -0x1.893a1b7f1684ap-1, -0x1.497ba2b77e3d7p-1, 0x1.64e957a4c9f44p-5, 0x1.36af49b2da7a9p+0, 0x1.7d5a14d32af68p-7, -0x1.2dd496986665cp-6, -0x1.3eaace0bf5d91p-3, 0x1.ecc12a2e3357p-3, -0x1.a2533ea20929ap-3, -0x1.4736d733d9806p-1, -0x1.577a3ca247804p-4, 0x1.7d5a14d32af68p-7, 0x1.bf4a9b0d99ebep-2, -0x1.5f6cf711fc46cp-2, -0x1.526e5264c2e4dp-4, -0x1.2ec64c63808d8p-2, 0x1.86896803ab06ep-1, 0x1.5c7cde1c8744p-8, 0x1.359cbdde93a76p-1, -0x1.2dd496986665cp-6, -0x1.5f6cf711fc46cp-2, 0x1.578edee985241p+0, 0x1.9e5811c20852p-5, -0x1.25e942d9924d2p-1, 0x1.afad709387af2p-4, -0x1.b2d63b90f5aebp-3, -0x1.3496f1fbc45f4p-2, -0x1.3eaace0bf5d91p-3, -0x1.526e5264c2e4dp-4, 0x1.9e5811c20852p-5, 0x1.e537ec09bc22fp+0, 0x1.57d89bfaf3cdcp-1, 0x1.6ef23022da3a5p-3, 0x1.ccca760842e07p-2, 0x1.7d4769545fd7p-6, 0x1.ecc12a2e3357p-3, -0x1.2ec64c63808d8p-2, -0x1.25e942d9924d2p-1, 0x1.57d89bfaf3cdcp-1, 0x1.162154451427dp+1}},
  };
  return c;
}
}  // namespace hard
#endif
