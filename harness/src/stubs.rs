//! OpenSSL is absent from the sandbox; these stand in for it so that HTTP
//! clients which never use TLS can be created. No check opens a TLS connection.
#![allow(non_snake_case)]
static mut BUF: [u64; 4096] = [0; 4096];
macro_rules! ptr {
    ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n() -> *mut u64 { unsafe { BUF.as_mut_ptr() } })* };
}
macro_rules! one {
    ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n() -> i64 { 1 })* };
}
macro_rules! zero {
    ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n() -> i64 { 0 })* };
}
ptr! {
    ASN1_STRING_get0_data ASN1_STRING_type_new BIO_meth_new BIO_new
    BIO_new_fp BIO_new_mem_buf BIO_new_socket BN_CTX_new
    BN_dup BN_new CRYPTO_get_ex_new_index DH_new
    DSA_get0_key DSA_get0_pqg DSA_new DTLS_method
    DTLSv1_2_method DTLSv1_method ECDSA_SIG_new EC_GF2m_simple_method
    EC_GROUP_new EC_GROUP_new_by_curve_name EC_GROUP_new_curve_GF2m EC_GROUP_new_curve_GFp
    EC_KEY_dup EC_KEY_get0_group EC_KEY_get0_private_key EC_KEY_get0_public_key
    EC_KEY_new EC_KEY_new_by_curve_name EC_POINT_new EVP_CIPHER_CTX_new
    EVP_MD_CTX_new EVP_PKEY_CTX_new EVP_PKEY_CTX_new_id EVP_PKEY_get1_DH
    EVP_PKEY_get1_DSA EVP_PKEY_get1_EC_KEY EVP_PKEY_get1_RSA EVP_PKEY_new
    EVP_PKEY_new_mac_key HMAC_CTX_new NCONF_new OCSP_BASICRESP_new
    OCSP_REQUEST_new OCSP_RESPONSE_new OCSP_response_get1_basic OPENSSL_sk_new_null
    RSA_get0_crt_params RSA_get0_factors RSA_get0_key RSA_new
    SSL_CTX_get0_certificate SSL_CTX_get0_privatekey SSL_CTX_get_ex_new_index SSL_CTX_new
    SSL_CTX_sess_set_new_cb SSL_CTX_set_client_CA_list SSL_CTX_set_psk_client_callback SSL_get0_alpn_selected
    SSL_get0_next_proto_negotiated SSL_get0_param SSL_get_client_random SSL_get_ex_new_index
    SSL_get_ssl_method SSL_load_client_CA_file SSL_new SSLv23_method
    SSLv3_method TLS_method TLSv1_1_method TLSv1_2_method
    TLSv1_method X509_NAME_new X509_REQ_new X509_STORE_CTX_get0_chain
    X509_STORE_CTX_new X509_STORE_new X509_get0_extensions X509_get0_signature
    X509_get1_ocsp X509_new sk_new_null
}
one! {
    AES_ige_encrypt AES_set_decrypt_key AES_set_encrypt_key ASN1_BIT_STRING_free
    ASN1_GENERALIZEDTIME_free ASN1_GENERALIZEDTIME_print ASN1_INTEGER_free ASN1_INTEGER_get
    ASN1_INTEGER_set ASN1_INTEGER_to_BN ASN1_OBJECT_free ASN1_STRING_data
    ASN1_STRING_free ASN1_STRING_length ASN1_STRING_to_UTF8 ASN1_TIME_free
    ASN1_TIME_print BIO_clear_flags BIO_ctrl BIO_free_all
    BIO_get_data BIO_meth_free BIO_meth_set_create BIO_meth_set_ctrl
    BIO_meth_set_destroy BIO_meth_set_puts BIO_meth_set_read BIO_meth_set_write
    BIO_read BIO_s_file BIO_s_mem BIO_set_data
    BIO_set_flags BIO_set_init BIO_write BN_CTX_free
    BN_add BN_add_word BN_bin2bn BN_bn2bin
    BN_bn2dec BN_bn2hex BN_clear BN_clear_bit
    BN_clear_free BN_cmp BN_dec2bn BN_div
    BN_div_word BN_exp BN_free BN_gcd
    BN_generate_prime_ex BN_get_rfc2409_prime_1024 BN_get_rfc2409_prime_768 BN_get_rfc3526_prime_1536
    BN_get_rfc3526_prime_2048 BN_get_rfc3526_prime_3072 BN_get_rfc3526_prime_4096 BN_get_rfc3526_prime_6144
    BN_get_rfc3526_prime_8192 BN_hex2bn BN_is_bit_set BN_is_negative
    BN_is_prime_ex BN_is_prime_fasttest_ex BN_lshift BN_lshift1
    BN_mask_bits BN_mod_add BN_mod_exp BN_mod_inverse
    BN_mod_mul BN_mod_sqr BN_mod_sub BN_mod_word
    BN_mul BN_mul_word BN_nnmod BN_pseudo_rand
    BN_pseudo_rand_range BN_rand BN_rand_range BN_rshift
    BN_rshift1 BN_set_bit BN_set_negative BN_set_word
    BN_sqr BN_sub BN_sub_word BN_to_ASN1_INTEGER
    BN_ucmp CMS_ContentInfo_free CMS_decrypt CMS_sign
    CRYPTO_add_lock CRYPTO_free CRYPTO_malloc CRYPTO_memcmp
    CRYPTO_set_id_callback CRYPTO_set_locking_callback DH_free DH_get_1024_160
    DH_get_2048_224 DH_get_2048_256 DH_set0_pqg DSA_free
    DSA_generate_key DSA_generate_parameters_ex DSA_sign DSA_size
    DSA_verify ECDSA_SIG_free ECDSA_SIG_get0 ECDSA_SIG_set0
    ECDSA_do_sign ECDSA_do_verify EC_GROUP_free EC_GROUP_get_curve_GF2m
    EC_GROUP_get_curve_GFp EC_GROUP_get_degree EC_GROUP_get_order EC_GROUP_set_asn1_flag
    EC_KEY_check_key EC_KEY_free EC_KEY_generate_key EC_KEY_set_group
    EC_KEY_set_private_key EC_KEY_set_public_key EC_KEY_set_public_key_affine_coordinates EC_KEY_up_ref
    EC_POINT_add EC_POINT_cmp EC_POINT_free EC_POINT_get_affine_coordinates_GF2m
    EC_POINT_get_affine_coordinates_GFp EC_POINT_invert EC_POINT_mul EC_POINT_oct2point
    EC_POINT_point2oct EVP_BytesToKey EVP_CIPHER_CTX_ctrl EVP_CIPHER_CTX_free
    EVP_CIPHER_CTX_set_key_length EVP_CIPHER_CTX_set_padding EVP_CIPHER_block_size EVP_CIPHER_iv_length
    EVP_CIPHER_key_length EVP_CipherFinal EVP_CipherInit EVP_CipherInit_ex
    EVP_CipherUpdate EVP_DigestFinal EVP_DigestFinal_ex EVP_DigestInit
    EVP_DigestInit_ex EVP_DigestSignFinal EVP_DigestSignInit EVP_DigestUpdate
    EVP_DigestVerifyFinal EVP_DigestVerifyInit EVP_MD_CTX_copy_ex EVP_MD_CTX_create
    EVP_MD_CTX_destroy EVP_MD_CTX_free EVP_MD_size EVP_PBE_scrypt
    EVP_PKEY_CTX_ctrl EVP_PKEY_CTX_free EVP_PKEY_assign EVP_PKEY_bits
    EVP_PKEY_cmp EVP_PKEY_copy_parameters EVP_PKEY_derive EVP_PKEY_derive_init
    EVP_PKEY_derive_set_peer EVP_PKEY_free EVP_PKEY_id EVP_PKEY_keygen
    EVP_PKEY_keygen_init EVP_PKEY_set1_RSA EVP_aes_128_cbc EVP_aes_128_ccm
    EVP_aes_128_cfb1 EVP_aes_128_cfb128 EVP_aes_128_cfb8 EVP_aes_128_ctr
    EVP_aes_128_ecb EVP_aes_128_gcm EVP_aes_128_xts EVP_aes_256_cbc
    EVP_aes_256_ccm EVP_aes_256_cfb1 EVP_aes_256_cfb128 EVP_aes_256_cfb8
    EVP_aes_256_ctr EVP_aes_256_ecb EVP_aes_256_gcm EVP_aes_256_xts
    EVP_bf_cbc EVP_bf_cfb64 EVP_bf_ecb EVP_bf_ofb
    EVP_chacha20 EVP_chacha20_poly1305 EVP_des_cbc EVP_des_ecb
    EVP_des_ede3 EVP_des_ede3_cbc EVP_get_cipherbyname EVP_md5
    EVP_rc4 EVP_ripemd160 EVP_sha1 EVP_sha224
    EVP_sha256 EVP_sha384 EVP_sha512 FIPS_mode
    FIPS_mode_set GENERAL_NAME_free HMAC_CTX_cleanup HMAC_CTX_copy
    HMAC_CTX_free HMAC_CTX_init HMAC_Final HMAC_Init_ex
    HMAC_Update NCONF_default NCONF_free OBJ_nid2sn
    OBJ_obj2nid OBJ_obj2txt OCSP_BASICRESP_free OCSP_CERTID_free
    OCSP_ONEREQ_free OCSP_REQUEST_free OCSP_RESPONSE_free OCSP_basic_verify
    OCSP_cert_to_id OCSP_check_validity OCSP_request_add0_id OCSP_resp_find_status
    OCSP_response_create OCSP_response_status OPENSSL_add_all_algorithms_noconf OPENSSL_init_ssl
    OPENSSL_sk_free OPENSSL_sk_pop OPENSSL_sk_pop_free OPENSSL_sk_push
    OPENSSL_sk_value OpenSSL_version PEM_read_bio_DHparams PEM_read_bio_DSAPrivateKey
    PEM_read_bio_DSA_PUBKEY PEM_read_bio_ECPrivateKey PEM_read_bio_PUBKEY PEM_read_bio_PrivateKey
    PEM_read_bio_RSAPrivateKey PEM_read_bio_RSAPublicKey PEM_read_bio_RSA_PUBKEY PEM_read_bio_X509
    PEM_read_bio_X509_REQ PEM_write_bio_DHparams PEM_write_bio_DSAPrivateKey PEM_write_bio_DSA_PUBKEY
    PEM_write_bio_ECPrivateKey PEM_write_bio_PKCS8PrivateKey PEM_write_bio_PUBKEY PEM_write_bio_PrivateKey
    PEM_write_bio_RSAPrivateKey PEM_write_bio_RSAPublicKey PEM_write_bio_RSA_PUBKEY PEM_write_bio_X509
    PEM_write_bio_X509_REQ PKCS12_create PKCS12_free PKCS12_parse
    PKCS5_PBKDF2_HMAC PKCS5_PBKDF2_HMAC_SHA1 RAND_bytes RAND_status
    RSA_free RSA_generate_key RSA_generate_key_ex RSA_private_decrypt
    RSA_private_encrypt RSA_public_decrypt RSA_public_encrypt RSA_set0_crt_params
    RSA_set0_factors RSA_set0_key RSA_sign RSA_size
    RSA_up_ref RSA_verify SHA1 SHA1_Final
    SHA1_Init SHA1_Update SHA224 SHA224_Final
    SHA224_Init SHA224_Update SHA256 SHA256_Final
    SHA256_Init SHA256_Update SHA384 SHA384_Final
    SHA384_Init SHA384_Update SHA512 SHA512_Final
    SHA512_Init SHA512_Update SMIME_read_CMS SSL_CIPHER_description
    SSL_CIPHER_get_bits SSL_CIPHER_get_cipher_nid SSL_CIPHER_get_digest_nid SSL_CIPHER_get_handshake_digest
    SSL_CIPHER_get_name SSL_CIPHER_get_version SSL_COMP_get_name SSL_CTX_add_custom_ext
    SSL_CTX_callback_ctrl SSL_CTX_check_private_key SSL_CTX_clear_options SSL_CTX_ctrl
    SSL_CTX_free SSL_CTX_get_cert_store SSL_CTX_get_ex_data SSL_CTX_get_max_proto_version
    SSL_CTX_get_min_proto_version SSL_CTX_get_options SSL_CTX_load_verify_locations SSL_CTX_sess_set_get_cb
    SSL_CTX_sess_set_remove_cb SSL_CTX_set_alpn_protos SSL_CTX_set_alpn_select_cb SSL_CTX_set_cipher_list
    SSL_CTX_set_cookie_generate_cb SSL_CTX_set_cookie_verify_cb SSL_CTX_set_default_verify_paths SSL_CTX_set_ex_data
    SSL_CTX_set_keylog_callback SSL_CTX_set_max_proto_version SSL_CTX_set_min_proto_version SSL_CTX_set_next_proto_select_cb
    SSL_CTX_set_next_protos_advertised_cb SSL_CTX_set_options SSL_CTX_set_session_id_context SSL_CTX_set_stateless_cookie_generate_cb
    SSL_CTX_set_stateless_cookie_verify_cb SSL_CTX_set_tmp_dh_callback SSL_CTX_set_tmp_ecdh_callback SSL_CTX_set_verify
    SSL_CTX_set_verify_depth SSL_CTX_up_ref SSL_CTX_use_PrivateKey SSL_CTX_use_PrivateKey_file
    SSL_CTX_use_certificate SSL_CTX_use_certificate_chain_file SSL_CTX_use_certificate_file SSL_SESSION_free
    SSL_SESSION_get_id SSL_SESSION_get_master_key SSL_SESSION_up_ref SSL_accept
    SSL_connect SSL_ctrl SSL_do_handshake SSL_export_keying_material
    SSL_extension_supported SSL_free SSL_get_SSL_CTX SSL_get_certificate
    SSL_get_current_cipher SSL_get_current_compression SSL_get_error SSL_get_ex_data
    SSL_get_ex_data_X509_STORE_CTX_idx SSL_get_peer_cert_chain SSL_get_peer_certificate SSL_get_privatekey
    SSL_get_rbio SSL_get_server_random SSL_get_servername SSL_get_session
    SSL_get_verify_result SSL_get_version SSL_get_wbio SSL_is_server
    SSL_library_init SSL_load_error_strings SSL_pending SSL_read
    SSL_select_next_proto SSL_session_reused SSL_set_SSL_CTX SSL_set_alpn_protos
    SSL_set_bio SSL_set_ex_data SSL_set_session SSL_set_tmp_dh_callback
    SSL_set_tmp_ecdh_callback SSL_set_verify SSL_shutdown SSL_state_string
    SSL_state_string_long SSL_stateless SSL_version SSL_write
    SSLeay SSLeay_version X509V3_EXT_nconf X509V3_EXT_nconf_nid
    X509V3_set_ctx X509V3_set_nconf X509_ALGOR_free X509_ALGOR_get0
    X509_EXTENSION_free X509_NAME_ENTRY_free X509_NAME_ENTRY_get_data X509_NAME_add_entry_by_NID
    X509_NAME_add_entry_by_txt X509_NAME_free X509_NAME_get_entry X509_NAME_get_index_by_NID
    X509_REQ_add_extensions X509_REQ_free X509_REQ_get_extensions X509_REQ_get_pubkey
    X509_REQ_get_subject_name X509_REQ_get_version X509_REQ_set_pubkey X509_REQ_set_subject_name
    X509_REQ_set_version X509_REQ_sign X509_STORE_CTX_cleanup X509_STORE_CTX_free
    X509_STORE_CTX_get_chain X509_STORE_CTX_get_current_cert X509_STORE_CTX_get_error X509_STORE_CTX_get_error_depth
    X509_STORE_CTX_get_ex_data X509_STORE_CTX_init X509_STORE_CTX_set_error X509_STORE_add_cert
    X509_STORE_free X509_STORE_set_default_paths X509_VERIFY_PARAM_free X509_VERIFY_PARAM_set1_host
    X509_VERIFY_PARAM_set1_ip X509_VERIFY_PARAM_set_hostflags X509_add_ext X509_check_issued
    X509_digest X509_free X509_get_ext_d2i X509_get_issuer_name
    X509_get_pubkey X509_get_serialNumber X509_get_signature_nid X509_get_subject_name
    X509_getm_notAfter X509_getm_notBefore X509_gmtime_adj X509_set1_notAfter
    X509_set1_notBefore X509_set_issuer_name X509_set_notAfter X509_set_notBefore
    X509_set_pubkey X509_set_serialNumber X509_set_subject_name X509_set_version
    X509_sign X509_to_X509_REQ X509_up_ref X509_verify_cert
    X509_verify_cert_error_string d2i_AutoPrivateKey d2i_DHparams d2i_DSAPrivateKey
    d2i_DSAPublicKey d2i_DSA_PUBKEY d2i_ECPrivateKey d2i_OCSP_REQUEST
    d2i_OCSP_RESPONSE d2i_PKCS12 d2i_PKCS8PrivateKey_bio d2i_PUBKEY
    d2i_RSAPrivateKey d2i_RSAPublicKey d2i_RSA_PUBKEY d2i_SSL_SESSION
    d2i_X509 d2i_X509_REQ get_rfc2409_prime_1024 get_rfc2409_prime_768
    get_rfc3526_prime_1536 get_rfc3526_prime_2048 get_rfc3526_prime_3072 get_rfc3526_prime_4096
    get_rfc3526_prime_6144 get_rfc3526_prime_8192 i2d_CMS_ContentInfo i2d_DHparams
    i2d_DSAPrivateKey i2d_DSAPublicKey i2d_DSA_PUBKEY i2d_ECPrivateKey
    i2d_OCSP_REQUEST i2d_OCSP_RESPONSE i2d_PKCS12 i2d_PKCS12_bio
    i2d_PUBKEY i2d_PUBKEY_bio i2d_PrivateKey i2d_PrivateKey_bio
    i2d_RSAPrivateKey i2d_RSAPublicKey i2d_RSA_PUBKEY i2d_SSL_SESSION
    i2d_X509 i2d_X509_REQ i2d_X509_REQ_bio i2d_X509_bio
    sk_free sk_pop sk_pop_free sk_push
    sk_value
}
zero! {
    BN_num_bits CRYPTO_num_locks ERR_clear_error ERR_func_error_string
    ERR_get_error ERR_get_error_line_data ERR_lib_error_string ERR_load_crypto_strings
    ERR_peek_last_error ERR_put_error ERR_reason_error_string ERR_set_error_data
    OPENSSL_sk_num OpenSSL_version_num sk_num
}
