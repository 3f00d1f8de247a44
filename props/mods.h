// The builds linked into this program, per primitive (HAVE_x comes from check.py).
#pragma once
#include "api.h"
#include <vector>
template <class T> struct Build { const char *name; const T *api; };
#ifdef HAVE_ctr_tab
extern "C" const AesCtrApi mod_ctr_tab;
#endif
#ifdef HAVE_ctr_x86
extern "C" const AesCtrApi mod_ctr_x86;
#endif
#ifdef HAVE_ctr_arm
extern "C" const AesCtrApi mod_ctr_arm;
#endif
#ifdef HAVE_ctr_x86i
extern "C" const AesCtrApi mod_ctr_x86i;
#endif
#ifdef HAVE_ctr_armi
extern "C" const AesCtrApi mod_ctr_armi;
#endif
static inline const std::vector<Build<AesCtrApi>> &ctr_builds() {
  static const std::vector<Build<AesCtrApi>> v = {
#ifdef HAVE_ctr_tab
    {"ctr_tab", &mod_ctr_tab},
#endif
#ifdef HAVE_ctr_x86
    {"ctr_x86", &mod_ctr_x86},
#endif
#ifdef HAVE_ctr_arm
    {"ctr_arm", &mod_ctr_arm},
#endif
#ifdef HAVE_ctr_x86i
    {"ctr_x86i", &mod_ctr_x86i},
#endif
#ifdef HAVE_ctr_armi
    {"ctr_armi", &mod_ctr_armi},
#endif
  };
  return v;
}
#ifdef HAVE_cfb_tab
extern "C" const AesCfbApi mod_cfb_tab;
#endif
#ifdef HAVE_cfb_x86
extern "C" const AesCfbApi mod_cfb_x86;
#endif
#ifdef HAVE_cfb_arm
extern "C" const AesCfbApi mod_cfb_arm;
#endif
#ifdef HAVE_cfb_x86i
extern "C" const AesCfbApi mod_cfb_x86i;
#endif
#ifdef HAVE_cfb_armi
extern "C" const AesCfbApi mod_cfb_armi;
#endif
static inline const std::vector<Build<AesCfbApi>> &cfb_builds() {
  static const std::vector<Build<AesCfbApi>> v = {
#ifdef HAVE_cfb_tab
    {"cfb_tab", &mod_cfb_tab},
#endif
#ifdef HAVE_cfb_x86
    {"cfb_x86", &mod_cfb_x86},
#endif
#ifdef HAVE_cfb_arm
    {"cfb_arm", &mod_cfb_arm},
#endif
#ifdef HAVE_cfb_x86i
    {"cfb_x86i", &mod_cfb_x86i},
#endif
#ifdef HAVE_cfb_armi
    {"cfb_armi", &mod_cfb_armi},
#endif
  };
  return v;
}
#ifdef HAVE_cfb_r6
extern "C" const AesCfbApi mod_cfb_r6;
#endif
#ifdef HAVE_cfb_r6x
extern "C" const AesCfbApi mod_cfb_r6x;
#endif
#ifdef HAVE_cfb_r6a
extern "C" const AesCfbApi mod_cfb_r6a;
#endif
static inline const std::vector<Build<AesCfbApi>> &cfb6_builds() {
  static const std::vector<Build<AesCfbApi>> v = {
#ifdef HAVE_cfb_r6
    {"cfb_r6", &mod_cfb_r6},
#endif
#ifdef HAVE_cfb_r6x
    {"cfb_r6x", &mod_cfb_r6x},
#endif
#ifdef HAVE_cfb_r6a
    {"cfb_r6a", &mod_cfb_r6a},
#endif
  };
  return v;
}
#ifdef HAVE_ctr_r6
extern "C" const AesCtrApi mod_ctr_r6;
#endif
#ifdef HAVE_ctr_r6x
extern "C" const AesCtrApi mod_ctr_r6x;
#endif
#ifdef HAVE_ctr_r6a
extern "C" const AesCtrApi mod_ctr_r6a;
#endif
static inline const std::vector<Build<AesCtrApi>> &ctr6_builds() {
  static const std::vector<Build<AesCtrApi>> v = {
#ifdef HAVE_ctr_r6
    {"ctr_r6", &mod_ctr_r6},
#endif
#ifdef HAVE_ctr_r6x
    {"ctr_r6x", &mod_ctr_r6x},
#endif
#ifdef HAVE_ctr_r6a
    {"ctr_r6a", &mod_ctr_r6a},
#endif
  };
  return v;
}
#ifdef HAVE_aegis_tab
extern "C" const AegisApi mod_aegis_tab;
#endif
#ifdef HAVE_aegis_x86
extern "C" const AegisApi mod_aegis_x86;
#endif
#ifdef HAVE_aegis_arm
extern "C" const AegisApi mod_aegis_arm;
#endif
#ifdef HAVE_aegis_x86i
extern "C" const AegisApi mod_aegis_x86i;
#endif
#ifdef HAVE_aegis_armi
extern "C" const AegisApi mod_aegis_armi;
#endif
static inline const std::vector<Build<AegisApi>> &aegis_builds() {
  static const std::vector<Build<AegisApi>> v = {
#ifdef HAVE_aegis_tab
    {"aegis_tab", &mod_aegis_tab},
#endif
#ifdef HAVE_aegis_x86
    {"aegis_x86", &mod_aegis_x86},
#endif
#ifdef HAVE_aegis_arm
    {"aegis_arm", &mod_aegis_arm},
#endif
#ifdef HAVE_aegis_x86i
    {"aegis_x86i", &mod_aegis_x86i},
#endif
#ifdef HAVE_aegis_armi
    {"aegis_armi", &mod_aegis_armi},
#endif
  };
  return v;
}
#ifdef HAVE_chacha20
extern "C" const ChachaApi mod_chacha20;
#endif
#ifdef HAVE_chacha12
extern "C" const ChachaApi mod_chacha12;
#endif
#ifdef HAVE_chacha8
extern "C" const ChachaApi mod_chacha8;
#endif
static inline const std::vector<Build<ChachaApi>> &chacha_builds() {
  static const std::vector<Build<ChachaApi>> v = {
#ifdef HAVE_chacha20
    {"chacha20", &mod_chacha20},
#endif
#ifdef HAVE_chacha12
    {"chacha12", &mod_chacha12},
#endif
#ifdef HAVE_chacha8
    {"chacha8", &mod_chacha8},
#endif
  };
  return v;
}
#ifdef HAVE_hc128
extern "C" const Hc128Api mod_hc128;
#endif
static inline const std::vector<Build<Hc128Api>> &hc128_builds() {
  static const std::vector<Build<Hc128Api>> v = {
#ifdef HAVE_hc128
    {"hc128", &mod_hc128},
#endif
  };
  return v;
}
#ifdef HAVE_rabbit
extern "C" const RabbitApi mod_rabbit;
#endif
static inline const std::vector<Build<RabbitApi>> &rabbit_builds() {
  static const std::vector<Build<RabbitApi>> v = {
#ifdef HAVE_rabbit
    {"rabbit", &mod_rabbit},
#endif
  };
  return v;
}
#ifdef HAVE_sosemanuk
extern "C" const SosemanukApi mod_sosemanuk;
#endif
static inline const std::vector<Build<SosemanukApi>> &sosemanuk_builds() {
  static const std::vector<Build<SosemanukApi>> v = {
#ifdef HAVE_sosemanuk
    {"sosemanuk", &mod_sosemanuk},
#endif
  };
  return v;
}
#ifdef HAVE_serpent
extern "C" const SerpentApi mod_serpent;
#endif
#ifdef HAVE_serpent_s
extern "C" const SerpentApi mod_serpent_s;
#endif
static inline const std::vector<Build<SerpentApi>> &serpent_builds() {
  static const std::vector<Build<SerpentApi>> v = {
#ifdef HAVE_serpent
    {"serpent", &mod_serpent},
#endif
#ifdef HAVE_serpent_s
    {"serpent_s", &mod_serpent_s},
#endif
  };
  return v;
}
#ifdef HAVE_sha
extern "C" const ShaApi mod_sha;
#endif
#ifdef HAVE_sha_h
extern "C" const ShaApi mod_sha_h;
#endif
static inline const std::vector<Build<ShaApi>> &sha_builds() {
  static const std::vector<Build<ShaApi>> v = {
#ifdef HAVE_sha
    {"sha", &mod_sha},
#endif
#ifdef HAVE_sha_h
    {"sha_h", &mod_sha_h},
#endif
  };
  return v;
}
#ifdef HAVE_hmac
extern "C" const HmacApi mod_hmac;
#endif
static inline const std::vector<Build<HmacApi>> &hmac_builds() {
  static const std::vector<Build<HmacApi>> v = {
#ifdef HAVE_hmac
    {"hmac", &mod_hmac},
#endif
  };
  return v;
}
#ifdef HAVE_md5
extern "C" const Md5Api mod_md5;
#endif
static inline const std::vector<Build<Md5Api>> &md5_builds() {
  static const std::vector<Build<Md5Api>> v = {
#ifdef HAVE_md5
    {"md5", &mod_md5},
#endif
  };
  return v;
}
#ifdef HAVE_des
extern "C" const DesApi mod_des;
#endif
static inline const std::vector<Build<DesApi>> &des_builds() {
  static const std::vector<Build<DesApi>> v = {
#ifdef HAVE_des
    {"des", &mod_des},
#endif
  };
  return v;
}
#ifdef HAVE_hex
extern "C" const HexApi mod_hex;
#endif
static inline const std::vector<Build<HexApi>> &hex_builds() {
  static const std::vector<Build<HexApi>> v = {
#ifdef HAVE_hex
    {"hex", &mod_hex},
#endif
  };
  return v;
}
