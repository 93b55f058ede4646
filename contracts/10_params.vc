@tattr ConsensusParameters #[verifier::ext_equal]
@derive ConsensusParameters Clone Copy
@keep ConsensusParameters.Copy
@fn ConsensusParameters.Clone.clone
@props C23
@ens
  r == *self
@fn ConsensusParameters.tx_offset
@props C23
@req
  40 + self.max_inputs * 40 <= usize::MAX
@ens
  r == 40 + self.max_inputs * 40
@fn ConsensusParameters.Default.default
@props C23
@ens
  r == ConsensusParameters::DEFAULT
@ens
  default_parameters::CONTRACT_MAX_SIZE == ConsensusParameters::DEFAULT.contract_max_size
@ens
  default_parameters::MAX_INPUTS == ConsensusParameters::DEFAULT.max_inputs
@ens
  default_parameters::MAX_OUTPUTS == ConsensusParameters::DEFAULT.max_outputs
@ens
  default_parameters::MAX_WITNESSES == ConsensusParameters::DEFAULT.max_witnesses
@ens
  default_parameters::MAX_GAS_PER_TX == ConsensusParameters::DEFAULT.max_gas_per_tx
@ens
  default_parameters::MAX_SCRIPT_LENGTH == ConsensusParameters::DEFAULT.max_script_length
@ens
  default_parameters::MAX_SCRIPT_DATA_LENGTH == ConsensusParameters::DEFAULT.max_script_data_length
@ens
  default_parameters::MAX_STORAGE_SLOTS == ConsensusParameters::DEFAULT.max_storage_slots
@ens
  default_parameters::MAX_PREDICATE_LENGTH == ConsensusParameters::DEFAULT.max_predicate_length
@ens
  default_parameters::MAX_PREDICATE_DATA_LENGTH == ConsensusParameters::DEFAULT.max_predicate_data_length
@ens
  default_parameters::GAS_PRICE_FACTOR == ConsensusParameters::DEFAULT.gas_price_factor
@ens
  default_parameters::GAS_PER_BYTE == ConsensusParameters::DEFAULT.gas_per_byte
@ens
  default_parameters::MAX_MESSAGE_DATA_LENGTH == ConsensusParameters::DEFAULT.max_message_data_length
@fn ConsensusParameters.with_contract_max_size
@props C23
@ens
  r == (ConsensusParameters { contract_max_size: contract_max_size, ..self })
@fn ConsensusParameters.with_max_inputs
@props C23
@ens
  r == (ConsensusParameters { max_inputs: max_inputs, ..self })
@fn ConsensusParameters.with_max_outputs
@props C23
@ens
  r == (ConsensusParameters { max_outputs: max_outputs, ..self })
@fn ConsensusParameters.with_max_witnesses
@props C23
@ens
  r == (ConsensusParameters { max_witnesses: max_witnesses, ..self })
@fn ConsensusParameters.with_max_gas_per_tx
@props C23
@ens
  r == (ConsensusParameters { max_gas_per_tx: max_gas_per_tx, ..self })
@fn ConsensusParameters.with_max_script_length
@props C23
@ens
  r == (ConsensusParameters { max_script_length: max_script_length, ..self })
@fn ConsensusParameters.with_max_script_data_length
@props C23
@ens
  r == (ConsensusParameters { max_script_data_length: max_script_data_length, ..self })
@fn ConsensusParameters.with_max_storage_slots
@props C23
@ens
  r == (ConsensusParameters { max_storage_slots: max_storage_slots, ..self })
@fn ConsensusParameters.with_max_predicate_length
@props C23
@ens
  r == (ConsensusParameters { max_predicate_length: max_predicate_length, ..self })
@fn ConsensusParameters.with_max_predicate_data_length
@props C23
@ens
  r == (ConsensusParameters { max_predicate_data_length: max_predicate_data_length, ..self })
@fn ConsensusParameters.with_gas_price_factor
@props C23
@ens
  r == (ConsensusParameters { gas_price_factor: gas_price_factor, ..self })
@fn ConsensusParameters.with_gas_per_byte
@props C23
@ens
  r == (ConsensusParameters { gas_per_byte: gas_per_byte, ..self })
@fn ConsensusParameters.with_max_message_data_length
@props C23
@ens
  r == (ConsensusParameters { max_message_data_length: max_message_data_length, ..self })
