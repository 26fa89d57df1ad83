#define __atomic_store_1 t_store_1
#define __atomic_store_2 t_store_2
#define __atomic_store_4 t_store_4
#define __atomic_store_8 t_store_8
#define __atomic_load_1 t_load_1
#define __atomic_load_2 t_load_2
#define __atomic_load_4 t_load_4
#define __atomic_load_8 t_load_8
#define __atomic_compare_exchange_1 t_compare_exchange_1
#define __atomic_compare_exchange_2 t_compare_exchange_2
#define __atomic_compare_exchange_4 t_compare_exchange_4
#define __atomic_compare_exchange_8 t_compare_exchange_8
#define __atomic_exchange_1 t_exchange_1
#define __atomic_exchange_2 t_exchange_2
#define __atomic_exchange_4 t_exchange_4
#define __atomic_exchange_8 t_exchange_8
#define __atomic_add_fetch_1 t_add_fetch_1
#define __atomic_add_fetch_2 t_add_fetch_2
#define __atomic_add_fetch_4 t_add_fetch_4
#define __atomic_add_fetch_8 t_add_fetch_8
#define __atomic_sub_fetch_1 t_sub_fetch_1
#define __atomic_sub_fetch_2 t_sub_fetch_2
#define __atomic_sub_fetch_4 t_sub_fetch_4
#define __atomic_sub_fetch_8 t_sub_fetch_8
#define __atomic_and_fetch_1 t_and_fetch_1
#define __atomic_and_fetch_2 t_and_fetch_2
#define __atomic_and_fetch_4 t_and_fetch_4
#define __atomic_and_fetch_8 t_and_fetch_8
#define __atomic_or_fetch_1 t_or_fetch_1
#define __atomic_or_fetch_2 t_or_fetch_2
#define __atomic_or_fetch_4 t_or_fetch_4
#define __atomic_or_fetch_8 t_or_fetch_8
#define __atomic_xor_fetch_1 t_xor_fetch_1
#define __atomic_xor_fetch_2 t_xor_fetch_2
#define __atomic_xor_fetch_4 t_xor_fetch_4
#define __atomic_xor_fetch_8 t_xor_fetch_8
#define __atomic_nand_fetch_1 t_nand_fetch_1
#define __atomic_nand_fetch_2 t_nand_fetch_2
#define __atomic_nand_fetch_4 t_nand_fetch_4
#define __atomic_nand_fetch_8 t_nand_fetch_8
#define __atomic_fetch_add_1 t_fetch_add_1
#define __atomic_fetch_add_2 t_fetch_add_2
#define __atomic_fetch_add_4 t_fetch_add_4
#define __atomic_fetch_add_8 t_fetch_add_8
#define __atomic_fetch_sub_1 t_fetch_sub_1
#define __atomic_fetch_sub_2 t_fetch_sub_2
#define __atomic_fetch_sub_4 t_fetch_sub_4
#define __atomic_fetch_sub_8 t_fetch_sub_8
#define __atomic_fetch_and_1 t_fetch_and_1
#define __atomic_fetch_and_2 t_fetch_and_2
#define __atomic_fetch_and_4 t_fetch_and_4
#define __atomic_fetch_and_8 t_fetch_and_8
#define __atomic_fetch_or_1 t_fetch_or_1
#define __atomic_fetch_or_2 t_fetch_or_2
#define __atomic_fetch_or_4 t_fetch_or_4
#define __atomic_fetch_or_8 t_fetch_or_8
#define __atomic_fetch_xor_1 t_fetch_xor_1
#define __atomic_fetch_xor_2 t_fetch_xor_2
#define __atomic_fetch_xor_4 t_fetch_xor_4
#define __atomic_fetch_xor_8 t_fetch_xor_8
#define __atomic_fetch_nand_1 t_fetch_nand_1
#define __atomic_fetch_nand_2 t_fetch_nand_2
#define __atomic_fetch_nand_4 t_fetch_nand_4
#define __atomic_fetch_nand_8 t_fetch_nand_8
