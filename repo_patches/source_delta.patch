From c6a0be6d6183998860a6af96a89f2015210534c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:55 +0000
Subject: [PATCH 01/10] fix: create-mint funds accounts only by balances it
 really learned

A failed balance query was taken for an empty account, so a transient RPC
error made the command transfer the full rent again to an address that
already had it.
---
 clients/cli/src/create_mint.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/clients/cli/src/create_mint.rs b/clients/cli/src/create_mint.rs
index 3c02fae..241394f 100644
--- a/clients/cli/src/create_mint.rs
+++ b/clients/cli/src/create_mint.rs
@@ -115,11 +115,11 @@ pub async fn command_create_mint(config: &Config, args: CreateMintArgs) -> Comma
     let mut instructions: Vec<Instruction> = Vec::new();
 
     // Fund the wrapped mint account if it doesn't exist or is insufficiently funded
-    let wrapped_mint_account = rpc_client.get_account(&wrapped_mint_address).await;
-    let wrapped_mint_lamports = match wrapped_mint_account {
-        Ok(account) => account.lamports,
-        Err(_) => 0,
-    };
+    let wrapped_mint_lamports = rpc_client
+        .get_account_with_commitment(&wrapped_mint_address, rpc_client.commitment())
+        .await?
+        .value
+        .map_or(0, |account| account.lamports);
 
     let mint_size = if args.wrapped_token_program == spl_token_2022_interface::id() {
         DefaultToken2022Customizer::get_token_2022_mint_space()?
@@ -147,11 +147,11 @@ pub async fn command_create_mint(config: &Config, args: CreateMintArgs) -> Comma
     }
 
     // Fund the backpointer account if it doesn't exist or is insufficiently funded
-    let backpointer_account = rpc_client.get_account(&wrapped_backpointer_address).await;
-    let backpointer_lamports = match backpointer_account {
-        Ok(account) => account.lamports,
-        Err(_) => 0,
-    };
+    let backpointer_lamports = rpc_client
+        .get_account_with_commitment(&wrapped_backpointer_address, rpc_client.commitment())
+        .await?
+        .value
+        .map_or(0, |account| account.lamports);
 
     let backpointer_rent = rpc_client
         .get_minimum_balance_for_rent_exemption(std::mem::size_of::<
-- 
2.43.0


From 7d5b31b8a0fa8e5f28da0322c851b39ee81b4b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:21 +0000
Subject: [PATCH 02/10] fix: a dry run reports the failure of the simulated
 transaction

process_transaction ignored the simulation's error, printed "Simulation
succeeded" and exited with success.
---
 clients/cli/src/common.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/clients/cli/src/common.rs b/clients/cli/src/common.rs
index bdf2524..9d35f8d 100644
--- a/clients/cli/src/common.rs
+++ b/clients/cli/src/common.rs
@@ -58,10 +58,16 @@ pub async fn process_transaction(
                     println!("    {}", log);
                 }
             }
+        }
+
+        if let Some(err) = simulation_data.value.err {
+            return Err(format!("Simulation failed: {err}").into());
+        }
 
+        if config.verbose() {
             println!(
                 "\nSimulation succeeded, consumed {} compute units",
-                simulation_data.value.units_consumed.unwrap()
+                simulation_data.value.units_consumed.unwrap_or_default()
             );
         } else {
             println_display(config, "Simulation succeeded".to_string());
-- 
2.43.0


From 0e93f774619769054e55fa233dde835be0170601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:21 +0000
Subject: [PATCH 03/10] fix: create-escrow-account skips creation only if an
 escrow really exists

Anyone can transfer lamports to the escrow address. The command took such an
address for an existing escrow: it failed, or with --idempotent reported
success without creating the account. A failed query is no longer taken for a
missing account either.
---
 clients/cli/src/create_escrow_account.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/clients/cli/src/create_escrow_account.rs b/clients/cli/src/create_escrow_account.rs
index 7ba2a2e..7f3d0e2 100644
--- a/clients/cli/src/create_escrow_account.rs
+++ b/clients/cli/src/create_escrow_account.rs
@@ -119,8 +119,14 @@ pub async fn command_create_escrow_account(
         &args.wrapped_token_program,
     );
 
-    match rpc_client.get_account(&escrow_account_address).await {
-        Ok(_) => {
+    let escrow_account = rpc_client
+        .get_account_with_commitment(&escrow_account_address, rpc_client.commitment())
+        .await?
+        .value;
+
+    match escrow_account {
+        // Lamports alone, which anyone can send there, do not make an escrow
+        Some(account) if account.owner == unwrapped_token_program_id => {
             if args.idempotent {
                 println_display(
                     config,
@@ -135,7 +141,7 @@ pub async fn command_create_escrow_account(
                 );
             }
         }
-        Err(_) => {
+        _ => {
             instructions.push(create_associated_token_account(
                 &payer.pubkey(),
                 &wrapped_mint_authority,
-- 
2.43.0


From a598204fdbc3e7525cb5a6cae1ae33ee89cdc812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 04/10] fix: create-escrow-account --idempotent tolerates a
 concurrent creation

The escrow may come into being between the command's look at the address and
its transaction, or the node asked may lag; the plain creation instruction
then failed although the caller asked for an idempotent one.
---
 clients/cli/src/create_escrow_account.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/clients/cli/src/create_escrow_account.rs b/clients/cli/src/create_escrow_account.rs
index 7f3d0e2..e123d47 100644
--- a/clients/cli/src/create_escrow_account.rs
+++ b/clients/cli/src/create_escrow_account.rs
@@ -16,7 +16,9 @@ use {
     solana_signature::Signature,
     solana_signer::Signer,
     solana_transaction::Transaction,
-    spl_associated_token_account_interface::instruction::create_associated_token_account,
+    spl_associated_token_account_interface::instruction::{
+        create_associated_token_account, create_associated_token_account_idempotent,
+    },
     spl_token_wrap::{get_escrow_address, get_wrapped_mint_address, get_wrapped_mint_authority},
     std::fmt::{Display, Formatter},
 };
@@ -142,7 +144,13 @@ pub async fn command_create_escrow_account(
             }
         }
         _ => {
-            instructions.push(create_associated_token_account(
+            // With --idempotent it is no failure if someone else creates it first
+            let create_instruction = if args.idempotent {
+                create_associated_token_account_idempotent
+            } else {
+                create_associated_token_account
+            };
+            instructions.push(create_instruction(
                 &payer.pubkey(),
                 &wrapped_mint_authority,
                 &args.unwrapped_mint,
-- 
2.43.0


From f9ce1062487591a20a472a69905a45fc2262a2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:06 +0000
Subject: [PATCH 05/10] fix: wrap refuses an escrow that cannot give tokens
 back

A mint that was closed and re-created at the same address can leave an escrow
with the non-transferable extension of its predecessor. Wrapping into it
succeeded, but unwrapping failed for ever, and the escrow could no longer be
closed as it was not empty.
---
 program/src/processor.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/program/src/processor.rs b/program/src/processor.rs
index c0a41c8..ebfe419 100644
--- a/program/src/processor.rs
+++ b/program/src/processor.rs
@@ -37,10 +37,11 @@ use {
         extract_multisig_accounts, invoke_transfer_checked, invoke_transfer_checked_with_fee,
     },
     spl_token_2022_interface::{
+        error::TokenError,
         extension::{
             account_len::try_for_each_required_init_account_extension,
-            transfer_fee::TransferFeeConfig, BaseStateWithExtensions, ExtensionType,
-            PodStateWithExtensions,
+            non_transferable::NonTransferableAccount, transfer_fee::TransferFeeConfig,
+            BaseStateWithExtensions, ExtensionType, PodStateWithExtensions,
         },
         instruction::initialize_mint2,
         pod::{PodAccount, PodMint},
@@ -246,6 +247,14 @@ pub fn process_wrap(accounts: &[AccountInfo], amount: u64) -> ProgramResult {
         if escrow_account.base.owner != expected_authority {
             Err(TokenWrapError::EscrowOwnerMismatch)?
         }
+        // An escrow left over from an earlier, non-transferable mint at the same
+        // address takes tokens in but never lets them out again
+        if escrow_account
+            .get_extension::<NonTransferableAccount>()
+            .is_ok()
+        {
+            Err(TokenError::NonTransferable)?
+        }
     }
 
     // Transfer unwrapped tokens from user to escrow
-- 
2.43.0


From 9e306a4c78675b00b8f197a156cd6a93da5db71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:13 +0000
Subject: [PATCH 06/10] fix: metadata sync to Metaplex does not claim the
 collection's verification

---
 program/src/metaplex.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/program/src/metaplex.rs b/program/src/metaplex.rs
index 60d3dd4..9b433c2 100644
--- a/program/src/metaplex.rs
+++ b/program/src/metaplex.rs
@@ -140,9 +140,11 @@ pub fn token_2022_metadata_to_metaplex(
                     .map_err(|_| ProgramError::InvalidAccountData)?;
             }
             "collection" => {
-                collection = Some(
-                    serde_json::from_str(value).map_err(|_| ProgramError::InvalidAccountData)?,
-                );
+                let mut deserialized_collection: MetaplexCollection =
+                    serde_json::from_str(value).map_err(|_| ProgramError::InvalidAccountData)?;
+                // Like a creator's, the collection authority's verification cannot be preserved
+                deserialized_collection.verified = false;
+                collection = Some(deserialized_collection);
             }
             "uses" => {
                 uses = Some(
-- 
2.43.0


From ba0bb589a55783276fb69561944c5422d748ff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:13 +0000
Subject: [PATCH 07/10] fix: metadata sync to Metaplex keeps verifications of
 the wrapped mint

---
 program/src/metaplex.rs  | 24 ++++++++++++++++++++++++
 program/src/processor.rs |  5 +++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/program/src/metaplex.rs b/program/src/metaplex.rs
index 9b433c2..917193f 100644
--- a/program/src/metaplex.rs
+++ b/program/src/metaplex.rs
@@ -165,3 +165,27 @@ pub fn token_2022_metadata_to_metaplex(
         uses,
     })
 }
+
+/// Keeps the verifications that creators and the collection authority gave to
+/// the existing `Metaplex` metadata, as they cannot be undone by an update.
+pub fn retain_verifications(
+    new_metadata: &mut DataV2,
+    metaplex_metadata_info: &AccountInfo,
+) -> Result<(), ProgramError> {
+    let metaplex_data = metaplex_metadata_info.try_borrow_data()?;
+    let existing = MetaplexMetadata::safe_deserialize(&metaplex_data)
+        .map_err(|_| ProgramError::InvalidAccountData)?;
+
+    for creator in new_metadata.creators.iter_mut().flatten() {
+        creator.verified = existing
+            .creators
+            .iter()
+            .flatten()
+            .any(|c| c.verified && c.address == creator.address);
+    }
+    if let (Some(new), Some(old)) = (&mut new_metadata.collection, &existing.collection) {
+        new.verified = old.verified && old.key == new.key;
+    }
+
+    Ok(())
+}
diff --git a/program/src/processor.rs b/program/src/processor.rs
index ebfe419..4c29498 100644
--- a/program/src/processor.rs
+++ b/program/src/processor.rs
@@ -10,7 +10,7 @@ use {
         get_wrapped_mint_backpointer_address_with_seed, get_wrapped_mint_signer_seeds,
         instruction::TokenWrapInstruction,
         metadata::extract_token_metadata,
-        metaplex::token_2022_metadata_to_metaplex,
+        metaplex::{retain_verifications, token_2022_metadata_to_metaplex},
         mint_customizer::{
             default_token_2022::DefaultToken2022Customizer, interface::MintCustomizer,
         },
@@ -749,7 +749,7 @@ pub fn process_sync_metadata_to_spl_token(accounts: &[AccountInfo]) -> ProgramRe
     let authority_signer_seeds =
         get_wrapped_mint_authority_signer_seeds(wrapped_mint_info.key, &authority_bump_seed);
 
-    let new_metadata = token_2022_metadata_to_metaplex(&unwrapped_metadata)?;
+    let mut new_metadata = token_2022_metadata_to_metaplex(&unwrapped_metadata)?;
 
     // If the Metaplex metadata account is uninitialized, create a new one. The user
     // is expected to have pre-funded the wrapped_mint_authority PDA. This program
@@ -783,6 +783,7 @@ pub fn process_sync_metadata_to_spl_token(accounts: &[AccountInfo]) -> ProgramRe
         )?;
     } else {
         // The Metaplex metadata account is initialized, so update the fields
+        retain_verifications(&mut new_metadata, metaplex_metadata_info)?;
         let update_ix = UpdateMetadataAccountV2 {
             metadata: *metaplex_metadata_info.key,
             update_authority: *wrapped_mint_authority_info.key,
-- 
2.43.0


From b7025f6256de3ed5997d1df76509f664290bc906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:07 +0000
Subject: [PATCH 08/10] fix: JavaScript createEscrowAccount handles lamports
 sent ahead to the address

The helper decoded whatever was at the escrow address, so it threw as soon as
anyone had sent lamports there. The escrow exists once the token program owns it.
---
 clients/js/src/utilities.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/clients/js/src/utilities.ts b/clients/js/src/utilities.ts
index 6ac5e32..d26747e 100644
--- a/clients/js/src/utilities.ts
+++ b/clients/js/src/utilities.ts
@@ -1,7 +1,7 @@
 import { getCreateAccountInstruction } from '@solana-program/system';
 import { getInitializeAccountInstruction as initializeToken, TOKEN_PROGRAM_ADDRESS } from '@solana-program/token';
 import {
-    fetchMaybeToken,
+    decodeToken,
     findAssociatedTokenPda,
     getCreateAssociatedTokenInstruction,
     getTokenDecoder,
@@ -107,9 +107,11 @@ export async function createEscrowAccount({
         tokenProgram: unwrappedTokenProgram,
     });
 
-    const escrowResult = await fetchMaybeToken(rpc, escrowAta);
-    if (escrowResult.exists) {
-        return { kind: 'already_exists', account: escrowResult };
+    // Lamports may have been sent to the address ahead of time. The account only
+    // exists once it belongs to the token program.
+    const escrowResult = await fetchEncodedAccount(rpc, escrowAta);
+    if (escrowResult.exists && escrowResult.programAddress === unwrappedTokenProgram) {
+        return { kind: 'already_exists', account: decodeToken(escrowResult) };
     }
 
     const ix = getCreateAssociatedTokenInstruction({
-- 
2.43.0


From b392b3d93b44880914d3aaffdfd0d6ef32c47e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:21 +0000
Subject: [PATCH 09/10] fix: SyncMetadataToToken2022 runs out of heap on
 metadata with many fields

Packing each update_field and remove_key instruction anew takes more than a
kilobyte of the program's 32 KB heap, which is never freed, so a sync with
some twenty fields to write always failed. Reuse one instruction of each kind.
---
 program/src/processor.rs | 86 +++++++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 40 deletions(-)

diff --git a/program/src/processor.rs b/program/src/processor.rs
index 4c29498..0b69784 100644
--- a/program/src/processor.rs
+++ b/program/src/processor.rs
@@ -25,6 +25,7 @@ use {
     },
     solana_account_info::{next_account_info, AccountInfo},
     solana_cpi::{invoke, invoke_signed},
+    solana_instruction::Instruction,
     solana_msg::msg,
     solana_program_error::{ProgramError, ProgramResult},
     solana_program_pack::Pack,
@@ -48,7 +49,11 @@ use {
         state::AccountState,
     },
     spl_token_metadata_interface::{
-        instruction::{initialize as initialize_token_metadata, remove_key, update_field},
+        borsh::BorshSerialize,
+        instruction::{
+            initialize as initialize_token_metadata, remove_key, update_field, RemoveKey,
+            UpdateField,
+        },
         state::{Field, TokenMetadata},
     },
     std::{collections::HashMap, mem},
@@ -514,6 +519,16 @@ pub fn process_close_stuck_escrow(accounts: &[AccountInfo]) -> ProgramResult {
     Ok(())
 }
 
+/// Replaces the arguments of a token-metadata instruction. The heap of the
+/// program is small and never freed, and packing an instruction takes more than
+/// a kilobyte of it: one instruction has to serve for all fields.
+fn set_metadata_args<T: BorshSerialize>(instruction: &mut Instruction, args: &T) -> ProgramResult {
+    const DISCRIMINATOR_LEN: usize = 8;
+    instruction.data.truncate(DISCRIMINATOR_LEN);
+    args.serialize(&mut instruction.data)?;
+    Ok(())
+}
+
 type FieldExtractor = Vec<(Field, fn(&TokenMetadata) -> &str)>;
 
 fn update_fields_if_changed<'a>(
@@ -598,6 +613,21 @@ pub fn process_sync_metadata_to_token_2022(accounts: &[AccountInfo]) -> ProgramR
         wrapped_mint_authority_info.clone(),
     ];
 
+    let mut update_field_ix = update_field(
+        token_program_info.key,
+        wrapped_mint_info.key,
+        wrapped_mint_authority_info.key,
+        Field::Name,
+        String::new(),
+    );
+    let mut remove_key_ix = remove_key(
+        token_program_info.key,
+        wrapped_mint_info.key,
+        wrapped_mint_authority_info.key,
+        String::new(),
+        false,
+    );
+
     if let Some(wrapped_metadata) = wrapped_mint_metadata {
         // The metadata extension is initialized. Update the fields that have changed.
         // Note that mint and update authority cannot change as that is governed by
@@ -624,38 +654,22 @@ pub fn process_sync_metadata_to_token_2022(accounts: &[AccountInfo]) -> ProgramR
         let mut wrapped_meta_map: HashMap<String, String> =
             wrapped_metadata.additional_metadata.into_iter().collect();
 
-        for (key, value) in &unwrapped_metadata.additional_metadata {
+        for (key, value) in unwrapped_metadata.additional_metadata {
+            // Remove the key from the map so we can track deletions
+            let wrapped_value = wrapped_meta_map.remove(&key);
             // Update if the key is not present or if the value is different
-            if wrapped_meta_map.get(key) != Some(value) {
-                invoke_signed(
-                    &update_field(
-                        token_program_info.key,
-                        wrapped_mint_info.key,
-                        wrapped_mint_authority_info.key,
-                        Field::Key(key.clone()),
-                        value.clone(),
-                    ),
-                    &cpi_accounts,
-                    &[&authority_signer_seeds],
-                )?;
+            if wrapped_value.as_ref() != Some(&value) {
+                let field = Field::Key(key);
+                set_metadata_args(&mut update_field_ix, &UpdateField { field, value })?;
+                invoke_signed(&update_field_ix, &cpi_accounts, &[&authority_signer_seeds])?;
             }
-            // Remove the key from the map so we can track deletions
-            wrapped_meta_map.remove(key);
         }
 
         // Any keys remaining in the map no longer exist in the source, so remove them
-        for key in wrapped_meta_map.keys() {
-            invoke_signed(
-                &remove_key(
-                    token_program_info.key,
-                    wrapped_mint_info.key,
-                    wrapped_mint_authority_info.key,
-                    key.clone(),
-                    false,
-                ),
-                &cpi_accounts,
-                &[&authority_signer_seeds],
-            )?;
+        for key in wrapped_meta_map.into_keys() {
+            let idempotent = false;
+            set_metadata_args(&mut remove_key_ix, &RemoveKey { idempotent, key })?;
+            invoke_signed(&remove_key_ix, &cpi_accounts, &[&authority_signer_seeds])?;
         }
     } else {
         // The wrapped mint does not have the metadata extension. Initialize it with the
@@ -676,18 +690,10 @@ pub fn process_sync_metadata_to_token_2022(accounts: &[AccountInfo]) -> ProgramR
         )?;
 
         // After initializing, add the additional metadata fields.
-        for (key, value) in &unwrapped_metadata.additional_metadata {
-            invoke_signed(
-                &update_field(
-                    token_program_info.key,
-                    wrapped_mint_info.key,
-                    wrapped_mint_authority_info.key,
-                    Field::Key(key.clone()),
-                    value.clone(),
-                ),
-                &cpi_accounts,
-                &[&authority_signer_seeds],
-            )?;
+        for (key, value) in unwrapped_metadata.additional_metadata {
+            let field = Field::Key(key);
+            set_metadata_args(&mut update_field_ix, &UpdateField { field, value })?;
+            invoke_signed(&update_field_ix, &cpi_accounts, &[&authority_signer_seeds])?;
         }
     }
 
-- 
2.43.0


From 69d9d24ecbc5330ffc0bd42aaa0f269f04eb0e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:26 +0000
Subject: [PATCH 10/10] fix: sync-metadata-to-token2022 asks for the compute
 that metadata with many fields takes

---
 clients/cli/src/common.rs                     | 15 ++++++++++++++-
 clients/cli/src/sync_metadata_to_token2022.rs |  7 +++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/clients/cli/src/common.rs b/clients/cli/src/common.rs
index 9d35f8d..d85cf54 100644
--- a/clients/cli/src/common.rs
+++ b/clients/cli/src/common.rs
@@ -3,8 +3,9 @@ use {
     clap::ArgMatches,
     solana_clap_v3_utils::keypair::pubkey_from_path,
     solana_client::nonblocking::rpc_client::RpcClient,
+    solana_instruction::Instruction,
     solana_presigner::Presigner,
-    solana_pubkey::Pubkey,
+    solana_pubkey::{pubkey, Pubkey},
     solana_signature::Signature,
     solana_transaction::Transaction,
     spl_token_2022_interface::{
@@ -45,6 +46,18 @@ pub fn parse_presigner(value: &str) -> Result<Presigner, String> {
     Ok(Presigner::new(&pubkey, &sig))
 }
 
+/// Asks for all the compute a transaction can have. Only what is used counts,
+/// and the default limit does not suffice for every metadata.
+pub fn max_compute_unit_limit() -> Instruction {
+    const COMPUTE_BUDGET: Pubkey = pubkey!("ComputeBudget111111111111111111111111111111");
+    const SET_COMPUTE_UNIT_LIMIT: u8 = 2;
+    const MAX_COMPUTE_UNIT_LIMIT: u32 = 1_400_000;
+
+    let mut data = vec![SET_COMPUTE_UNIT_LIMIT];
+    data.extend_from_slice(&MAX_COMPUTE_UNIT_LIMIT.to_le_bytes());
+    Instruction::new_with_bytes(COMPUTE_BUDGET, &data, vec![])
+}
+
 pub async fn process_transaction(
     config: &Config,
     transaction: Transaction,
diff --git a/clients/cli/src/sync_metadata_to_token2022.rs b/clients/cli/src/sync_metadata_to_token2022.rs
index 28a458f..61a1171 100644
--- a/clients/cli/src/sync_metadata_to_token2022.rs
+++ b/clients/cli/src/sync_metadata_to_token2022.rs
@@ -1,6 +1,6 @@
 use {
     crate::{
-        common::{parse_pubkey, process_transaction},
+        common::{max_compute_unit_limit, parse_pubkey, process_transaction},
         config::Config,
         output::{format_output, println_display},
         CommandResult, Error,
@@ -143,7 +143,10 @@ pub async fn command_sync_metadata_to_token2022(
 
     let blockhash = config.rpc_client.get_latest_blockhash().await?;
 
-    let mut transaction = Transaction::new_with_payer(&[instruction], Some(&payer.pubkey()));
+    let mut transaction = Transaction::new_with_payer(
+        &[max_compute_unit_limit(), instruction],
+        Some(&payer.pubkey()),
+    );
     transaction.partial_sign(core::slice::from_ref(&payer), blockhash);
 
     process_transaction(config, transaction.clone()).await?;
-- 
2.43.0

