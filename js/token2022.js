module.exports = require('./stub.js').token2022;
